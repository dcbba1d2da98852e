"""Missing target data affects only those targets.

The job is compared with one whose catalog never had the affected targets.
"""
import json
import os

import fitsio
import numpy as np

from sim import compare, faults, fitcase, outputs
from sim.ctx import Inconclusive

ID = 'C13'
HARD = ('delta-set', 'delta-columns', 'unreadable', 'table-shape',
        'not-affected', 'affected', 'other-affected')
COUNTS = ('missing', 'missing_groups')


def case(r, i, tier):
    wk, ok = {}, {}
    k = i % 5
    if k in (0, 1):
        wk = dict(missing=r.randint(1, 5), nq=r.randint(18, 26))
        ok = dict(model='picca')
    elif k == 2:
        wk = dict(missing_groups=r.randint(1, 3), npix=r.randint(4, 9),
                  nq=r.randint(18, 26), missing=r.randint(0, 2))
    else:
        wk = dict(missing=r.choice([0, 0, 2]), nq=r.randint(18, 26))
        ok = dict(model='input', drop_targets=r.randint(0, 4),
                  drop_files=r.choice([0, 0, 1, 2]),
                  garbage=r.choice([0, 1, 1]), negcont=r.choice([0, 3, -3]),
                  save_by_hpx=False)
        if r.random() < .5:
            wk['sparse_pix'] = True
    c = fitcase.base_case(r, worldkw=wk, optkw=ok, nmin=1, nmax=6)
    if k == 2:
        # the emptied group has a process of its own
        c['n'] = c['world']['npix']
        c['opts']['model'] = r.choice(['picca', 'picca', c['opts'].get(
            'model', 'picca')])
    if c['opts'].get('model') == 'true':
        c['opts']['model'] = 'picca'
    if k == 1 and c['world']['fmt'] == 'hpx' and r.random() < .5:
        c['world'].update(exposures=r.randint(1, 3))
        c['opts'].update(exposures=r.choice(['after', 'before']))
    if k == 4:
        c['u'] = [r.random(), r.random()]
        # one row per target: the error hits the rows of one process
        c['world']['dup_tid_tiles'] = 0
    c['opts'].update(var_use_cov=False)
    return c


def reduced_catalog(S, gone):
    """Catalog without the rows gone((tid, tile))."""
    with fitsio.FITS(S.W.catfile) as f:
        d, h = f[1].read(), f[1].get_extname()
    tile = d['TILEID'] if 'TILEID' in d.dtype.names else np.zeros(d.size)
    k = [not gone(int(t), int(x)) for t, x in zip(d['TARGETID'], tile)]
    fn = os.path.join(os.path.dirname(S.W.catfile), 'cat2.fits')
    with fitsio.FITS(fn, 'rw', clobber=True) as f:
        f.write(d[np.array(k)], extname=h or None)
    return fn


def reference(S, tag, bad, absent):
    """The same job on one process, the affected targets not in the
    catalog."""
    W = S.W
    fn, W.catfile = W.catfile, reduced_catalog(
        S, lambda t, x: t in bad or (t, x) in absent
        or (t, 0) in absent)
    try:
        return S.run(tag + 'ref', tag + 'ref', n=1)
    finally:
        W.catfile = fn


def once(ctx, case, tag=''):
    """-> (violations or None, setup, result, reference result)."""
    S = fitcase.Setup(ctx, case)
    W, o = S.W, S.o
    n = S.nranks()
    absent = {(q['tid'], q['tile'] if W.P['fmt'] == 'tile' else 0)
              for q in W.Q if not q['in_file']}
    bad = set()                # targets with unusable continua
    if o['model'] == 'input':
        bad = {q['tid'] for q in W.Q if q['tid'] not in W.incont} \
            | set(W.incont_neg)
    fl = case.get(tag + 'faults')
    if fl is None and case.get('u') and o['model'] == 'input':
        r0 = S.run(tag + 'probe', tag + 'out0')
        if not r0.ok:
            return None, S, r0, r0
        # a failing close comes after the data were read
        ev = [e for e in faults.events(r0) if 'input-continuum' in e[3]
              and not e[2].startswith('close')]
        e = faults.balanced(ev, *case['u'])
        fl = [dict(kind='io_error', path=e[3], ops=[e[2]], rank=e[0])] \
            if e else []
        case[tag + 'faults'] = fl
    r = S.run(tag + 'main', tag + 'out', faults=fl or [])
    pn = None
    if fl and r.fired:
        ctx.note('continuum-read-error')
        pn = int(r.fired[0][4].split('-')[-1].split('.')[0])
    if not r.ok:
        if pn is not None:
            bad |= {q['tid'] for q in W.Q if q['pix8'] == pn}
        return None, S, r, reference(S, tag, bad, absent)
    A = outputs.FitOut(os.path.join(ctx.root, tag + 'out'))
    if pn is not None:
        mine = {int(x['TARGETID']) for x in A.chi2
                if int(x['MPI_RANK']) == r.fired[0][1]}
        bad |= {q['tid'] for q in W.Q if q['pix8'] == pn} & mine
    v = []
    if o['model'] == 'input' and W.incont_dip:
        # unusable or not by where the dip lies: believe the list of invalid
        # spectra, but what is saved must have a positive continuum
        ctx.note('partly-negative-continuum', len(W.incont_dip))
        bad |= {int(x['TARGETID']) for x in A.chi2 if not x['CONT_valid']} \
            & W.incont_dip
        for d in A.deltas:
            if d.tid in W.incont_dip and not o['normalize'] \
                    and np.any(d.cont < -1e-6):
                v.append(('affected', f"{d.tid}: input continuum partly "
                          "negative, but saved"))
        if v:
            return v, S, r, r
    if not absent and not bad:
        raise Inconclusive('nothing-missing')
    ctx.note('absent', len(absent))
    ctx.note('no-continuum', len(bad))
    r1 = reference(S, tag, bad, absent)
    if not r1.ok:
        return None, S, r, r1
    B = outputs.FitOut(os.path.join(ctx.root, tag + 'ref'))
    # rows of the targets without continuum
    rows = A.chi2
    m = np.isin(rows['TARGETID'], sorted(bad))
    for x in rows[m]:
        if x['CONT_valid']:
            v.append(('affected', f"{x['TARGETID']} has no usable continuum "
                      "but is listed valid"))
    for d in A.deltas:
        if d.tid in bad:
            v.append(('affected', f"{d.tid} has no usable continuum but is "
                      "saved"))
    A.chi2 = rows[~m]
    ids = {(int(x['TARGETID']),) for x in B.chi2}
    for x in A.chi2:
        if (int(x['TARGETID']),) not in ids:
            v.append(('affected', f"{x['TARGETID']} entered the fit"))
    have = {int(x['TARGETID']) for x in rows}
    for (t,) in sorted(ids):
        if t not in have:
            v.append(('other-affected', f"{t} has all its data but did not "
                      "enter the fit"))
    if v:
        return v, S, r, r1
    # L-BFGS-B stops short of the minimum, where depends on rounding
    rt = 1e-2 if o['minimizer'] == 'l_bfgs_b' else 3e-4
    v = compare.cmp_fit(A, B, compare.Tol(rt, 1e-7), same_n=False,
                        skip=('CONT_xcov',)
                        if o['minimizer'] == 'l_bfgs_b' else ())
    return v, S, r, r1


def judge(case, ctx):
    v, S, r, r1 = once(ctx, case)
    if v is None:
        if r.ok == r1.ok:
            return fitcase.fault_free_failure(r, case, S)
        if not r.ok and not r.failed_loudly:
            return [('run-fails', r.describe())]
        for o in ('out', 'ref'):
            if fitcase.degenerate_variance(S, o) \
                    or o == 'out' and fitcase.diagnose(S, o):
                raise Inconclusive('degenerate-variance')
        if r.ok and fitcase.alike_failure(r1):
            # the smaller survey does not determine the functions
            raise Inconclusive('reference-gave-up')
        return [('success-differs', f"with missing data: {r.describe()}; "
                 f"without these targets: {r1.describe()}")]
    if not v or (S.o['minimizer'] != 'l_bfgs_b'
                 and any(x[0] in HARD for x in v)):
        return v[:5]
    ctx.note('rounding-sensitive')
    hits = 0
    for k in range(3):
        sib = json.loads(json.dumps(case))
        sib['world']['wseed'] += 1 + k
        ctx.wipe('in')
        try:
            w = once(ctx, sib, f's{k}')[0]
        except Inconclusive:
            continue
        if w:
            hits += 1
    if hits >= 2:
        return v[:5]
    raise Inconclusive('rounding-sensitive')
