"""Every selected quasar is assigned to exactly one process (API level)."""
import os

import fitsio
import healpy
import numpy as np

from sim import faults

ID = 'C01'
BAD = ['missing-file', 'garbage', 'no-column', 'dup', 'empty-z',
       'empty-survey', 'empty-table', 'truncated']


def case(r, i, tier):
    c = dict(n=r.choice([1, 2, 2, 3, 3, 4, 5, 6, 8, 12]),
             seed=r.randrange(1 << 40),
             policy=r.choice(['uniform', 'sticky', 'starve', 'pct']))
    fmt = r.choice(['hpx', 'hpx', 'mock', 'tile'])
    ng = r.choice([1, 2, 3, 5, 8, 13, 30])
    c['cat'] = dict(
        g=r.randrange(1 << 30), fmt=fmt, ng=ng,
        nq=r.choice([1, 3, ng, 2 * ng, 5 * ng, 200]),
        skew=r.choice([0, 0, 1, 3]), has_hpx=r.random() < 0.6,
        cols=r.choice(['default', 'target', 'alt', 'both']),
        ext=r.choice(['QSO_CAT', 'ZCATALOG', 'METADATA', '']),
        surveys=r.choice([['main'], ['main', 'sv3'],
                          ['main', 'sv1', 'special'],
                          ['main', 'mainb', 'sv']]),
        zmin=r.choice([0, 1.8, 2.1]), zmax=r.choice([100, 3.5, 2.6]),
        edge=r.random() < 0.4, nan=r.random() < 0.15,
        dup_tiles=fmt == 'tile' and r.random() < 0.5,
        mock_survey=r.random() < 0.3)
    sv = c['cat']['surveys']
    c['keep'] = r.choice([None, ['main'], list(sv), ['main', 'sv3'],
                          ['sv3', 'main', 'other']])
    k = i % 4
    if k == 1 and r.random() < 0.8:
        c['bad'] = r.choice(BAD)
        c['which'] = r.random()
    elif k == 3:
        c['fault'] = [r.choice(['io_error', 'io_error', 'memory']),
                      r.random(), r.random()]
    return c


def make(case):
    P = case['cat']
    g = np.random.default_rng(P['g'])
    mock, tile = P['fmt'] == 'mock', P['fmt'] == 'tile'
    nside = 16 if mock else 64
    pix = g.choice(12 * nside**2, P['ng'], replace=False)
    w = (1. + np.arange(P['ng']))**(-float(P['skew']))
    rows = []
    ids = g.choice(10**7, P['nq'] + 1, replace=False) + 39627000000000000
    for i in range(P['nq']):
        k = int(g.choice(P['ng'], p=w / w.sum()))
        ra, dec = healpy.pix2ang(nside, int(pix[k]), nest=True, lonlat=True)
        z = float(g.uniform(1.6, 4.0))
        if P['edge'] and g.random() < 0.15:
            z = float(g.choice([P['zmin'], P['zmax'],
                                np.nextafter(P['zmin'], -1),
                                np.nextafter(P['zmax'], 200)]))
        if P['nan'] and g.random() < 0.05:
            z = np.nan
        rows.append(dict(
            tid=int(ids[i]), z=z, ra=float(ra), dec=float(dec),
            hpx=int(pix[k]), tile=1000 + 7 * k, petal=int(g.integers(0, 10)),
            survey=str(g.choice(P['surveys'])),
            night=20210101 + int(g.integers(0, 1000))))
    if P['dup_tiles'] and P['ng'] > 1:
        for q in rows[:3]:
            q2 = dict(q)
            q2['tile'] = q['tile'] + 7 if q['tile'] == 1000 else 1000
            rows.append(q2)
    order = g.permutation(len(rows))
    return [rows[j] for j in order]


def write(case, rows, path):
    P = case['cat']
    mock, tile = P['fmt'] == 'mock', P['fmt'] == 'tile'
    c = P['cols']
    ra = ['RA'] if c in ('default',) else ['TARGET_RA']
    de = ['DEC'] if c in ('default',) else ['TARGET_DEC']
    if c == 'both':
        ra, de = ['TARGET_RA', 'RA'], ['TARGET_DEC', 'DEC']
    ni = {'default': 'LASTNIGHT', 'target': 'COADD_LASTNIGHT',
          'alt': 'LAST_NIGHT', 'both': 'LASTNIGHT'}[c]
    cols = [('TARGETID', 'i8', 'tid'), ('Z', 'f8', 'z')]
    cols += [(x, 'f8', 'ra') for x in ra] + [(x, 'f8', 'dec') for x in de]
    if not mock or P['mock_survey']:
        cols += [('SURVEY', 'S8', 'survey'), (ni, 'i4', 'night')]
    if tile:
        cols += [('TILEID', 'i4', 'tile'), ('PETAL_LOC', 'i2', 'petal')]
    if P['has_hpx']:
        cols += [('HPXPIXEL', 'i8', 'hpx')]
    bad = case.get('bad')
    if bad == 'no-column':
        need = [['TARGETID'], ['Z'], ra, de]
        if not mock:
            need += [['SURVEY'], [ni]]
        if tile:
            need += [['TILEID'], ['PETAL_LOC']]
        drop = need[int(case['which'] * len(need)) % len(need)]
        cols = [x for x in cols if x[0] not in drop]
    if bad == 'dup':
        rows = rows + [dict(rows[int(case['which'] * len(rows))])]
    if bad == 'empty-z':
        rows = [dict(q, z=0.5 * P['zmin'] - 1) for q in rows]
    a = np.zeros(len(rows), dtype=[x[:2] for x in cols])
    for name, _, key in cols:
        a[name] = [q[key] for q in rows]
    if bad == 'missing-file':
        return
    if bad == 'garbage':
        with open(path, 'wb') as f:
            f.write(b'not a fits file' * 40)
        return
    if bad == 'empty-table':
        a = a[:0]
    with fitsio.FITS(path, 'rw', clobber=True) as f:
        f.write(a, extname=P['ext'] or None)
    if bad == 'truncated':
        n = os.path.getsize(path)
        with open(path, 'r+b') as f:
            f.truncate(2880 + int(case['which'] * 2000))
        assert os.path.getsize(path) < n


def judge(case, ctx):
    P = case['cat']
    rows = make(case)
    path = os.path.join(ctx.root, 'cat.fits')
    write(case, rows, path)
    mock, tile = P['fmt'] == 'mock', P['fmt'] == 'tile'
    keep = case['keep']
    if case.get('bad') == 'empty-survey':
        if mock and not P['mock_survey']:
            keep = None
            P['zmin'], P['zmax'] = 50, 60
        else:
            keep = ['nothing']
    n = case['n']

    def fn(rank, comm):
        import qsonic.catalog
        from qsonic import QsonicException
        try:
            q = qsonic.catalog.mpi_get_local_queue(
                path, comm, rank, n, mock, tile, keep, P['zmin'], P['zmax'])
        except QsonicException as e:
            return 'error', str(e)
        return 'ok', [np.array(x) for x in q]

    fl = None
    if case.get('faults'):
        fl = case['faults']
    elif case.get('fault'):
        r0 = ctx.run_fn('probe', fn, n)
        kinds = faults.FAULTABLE
        e = faults.balanced(faults.events(r0, kinds, ranks=[0]),
                            case['fault'][1], case['fault'][2])
        if e is not None:
            fl = [dict(kind=case['fault'][0], rank=0, ev=e[1])]
            case['faults'] = fl
    r = ctx.run_fn('main', fn, n, faults=fl or ())
    if not r.ok:
        return [('run-fails', f"{r.describe()}; faults {r.fired}")]
    res = [p.result for p in r.kernel.procs]
    st = sorted(set(x[0] for x in res))
    if len(st) > 1:
        return [('not-alike', "some processes fail and others go on: "
                 f"{[x[0] for x in res]}; faults {r.fired}")]
    want_err = bool(case.get('bad'))
    exp = expected(P, rows, keep, mock)
    if case.get('bad') is None and not exp:
        want_err = True
    if st == ['error']:
        ctx.note('errors')
        msg = set(x[1] for x in res)
        if len(msg) > 1 or not msg.pop():
            return [('not-alike', f"messages differ: {[x[1] for x in res]}")]
        if not want_err and not r.fired:
            return [('refused', "a valid catalog is refused: "
                     f"{res[0][1]} {logs(r)}")]
        return []
    if want_err and not (case.get('bad') == 'dup' and False):
        return [('accepted', "a bad catalog is accepted: "
                 f"{case.get('bad') or 'nothing selected'}")]
    ctx.note('assignments')
    return compare(P, exp, [x[1] for x in res], mock, tile)


def logs(r):
    return str([m for p in r.kernel.procs for lv, m in p.logs
                if lv == 'ERROR'])[:200]


def expected(P, rows, keep, mock):
    has_survey = not mock or P['mock_survey']
    out = []
    for q in rows:
        if not (q['z'] >= P['zmin'] and q['z'] <= P['zmax']):
            continue
        if has_survey and keep is not None and q['survey'] not in keep:
            continue
        out.append(q)
    return out


def compare(P, exp, qs, mock, tile):
    out = []
    want = {}
    for q in exp:
        want[(q['tid'], q['tile'] if tile else 0)] = q
    got, owner = {}, {}
    size = []
    for rank, queue in enumerate(qs):
        size.append(sum(a.size for a in queue))
        for a in queue:
            if a.size == 0:
                out.append(('empty-group', f"process {rank} gets an empty "
                            "group"))
                continue
            for x in a:
                k = (int(x['TARGETID']), int(x['TILEID']) if tile else 0)
                got.setdefault(k, []).append(rank)
                q = want.get(k)
                if q is None:
                    continue
                if not (float(x['Z']) == q['z'] and float(x['RA']) == q['ra']
                        and float(x['DEC']) == q['dec']):
                    out.append(('row-mixed', f"{k}: values of another row"))
                if int(x['HPXPIXEL']) != q['hpx']:
                    out.append(('row-mixed', f"{k}: HPXPIXEL "
                                f"{x['HPXPIXEL']} != {q['hpx']}"))
                if 'SURVEY' in a.dtype.names and \
                        str(x['SURVEY']).strip() != q['survey']:
                    out.append(('row-mixed', f"{k}: SURVEY"))
                grp = q['tile'] if tile else q['hpx']
                owner.setdefault(grp, set()).add(rank)
    for k in want:
        if len(got.get(k, [])) != 1:
            out.append(('assignment', f"quasar {k} is given to processes "
                        f"{got.get(k, [])}"))
    for k in got:
        if k not in want:
            out.append(('assignment', f"quasar {k} outside the selection is "
                        f"given to processes {got[k]}"))
    for grp, s in owner.items():
        if len(s) > 1:
            out.append(('split', f"group {grp} is split between processes "
                        f"{sorted(s)}"))
    if not out:
        big = {}
        for q in exp:
            gk = q['tile'] if tile else q['hpx']
            big[gk] = big.get(gk, 0) + 1
        # moving the smallest group of any process to another one must not
        # even the load out further
        for grp, ranks in owner.items():
            i = min(ranks)
            if size[i] - big[grp] > min(size):
                out.append(('balance', f"loads {size}: process {i} holds a "
                            f"group of {big[grp]}"))
                break
    return out[:6]


def reduce(case):
    import copy
    P = case['cat']
    for k, vs in (('nq', [1, 2, P['nq'] // 2]), ('ng', [1, 2]),
                  ('skew', [0]), ('edge', [False]), ('nan', [False]),
                  ('dup_tiles', [False]), ('cols', ['default']),
                  ('surveys', [['main']])):
        for v in vs:
            if P[k] != v and (not isinstance(v, int) or v <= P[k]):
                c = copy.deepcopy(case)
                c['cat'][k] = v
                yield c
    if case['keep'] is not None:
        c = copy.deepcopy(case)
        c['keep'] = None
        yield c
