"""Same command, same results."""
import copy
import json
import os

import fitsio
import numpy as np

from sim import calcase, coaddcase, compare, fitcase, gen, outputs
from sim.ctx import Inconclusive

ID = 'C16'
HARD = ('delta-set', 'delta-file', 'delta-columns', 'unreadable', 'file-set',
        'table-shape', 'stale')


def case(r, i, tier):
    k = i % 8
    if k in (3, 6):
        c = calcase.case(r, nmax=5)
        c['mode'] = 'calib'
        c['copts']['use_cov'] = False
        c['dw']['twoid'] = r.random() < .3
        c['dw']['twocol'] = r.random() < .15
    elif k == 7:
        c = coaddcase.case(r)
        c['mode'] = 'coadd'
        c['dw']['twoid'] = r.random() < .3
        c['dw']['twocol'] = r.random() < .15
    else:
        c = fitcase.base_case(r, nmin=1, nmax=4)
        c['mode'] = 'fit'
        if k == 1 and c['world']['fmt'] == 'hpx':
            c['world'].update(exposures=r.randint(1, 3))
            c['opts'].update(exposures=r.choice(['after', 'before']),
                             model='picca')
        if k == 5:
            c['world']['arms'] = ['B', 'R', 'Z']
            c['opts']['arms'] = r.choice([['B', 'R', 'Z'], ['Z', 'B', 'R'],
                                          ['R', 'B', 'R', 'Z']])
        if c['opts']['var_use_cov']:
            c['opts']['num_iterations'] = 1
        c['amb'] = [x for x in ('ext', 'radec', 'night', 'dla')
                    if r.random() < .2 and (
                        x != 'night' or c['world']['fmt'] != 'tile')]
        c['opts']['dla'] |= 'dla' in c['amb']
    c['stale'] = r.choice([None, None, 'same', 'other', 'other'])
    c['jumps'] = [dict(kind='clock_jump', rank=r.randrange(6),
                       ev=r.randrange(1, 60),
                       by=r.choice([-1, 1]) * 10**r.uniform(0, 8))
                  for _ in range(r.choice([0, 0, 1, 1, 3]))]
    c['policy1'] = r.choice(gen.POLICIES)
    c['salt'] = r.randrange(3)
    return c


def ambiguous(case, root, what):
    """Files that satisfy more than one accepted convention."""
    g = np.random.default_rng(case['world']['wseed'])
    fn = os.path.join(root, 'in', 'cat.fits')
    if what == 'dla':
        fn = os.path.join(root, 'in', 'dla.fits')
        if not os.path.exists(fn):
            return
        with fitsio.FITS(fn) as f:
            d, h = f['DLACAT'].read(), 'DLACAT'
        new = [x for x in ('Z_DLA', 'Z_DLA_RSD', 'Z')
               if x not in d.dtype.names]
        if not d.size:
            return
        z = [x for x in ('Z_DLA', 'Z_DLA_RSD', 'Z') if x in d.dtype.names][0]
        d = extend(d, {x: d[z] + .02 * (k + 1) for k, x in enumerate(new)})
    else:
        with fitsio.FITS(fn) as f:
            d, h = f[1].read(), f[1].get_extname()
        if what == 'radec' and 'HPXPIXEL' in d.dtype.names:
            a = {}
            for x in ('RA', 'DEC'):
                for y in (x, 'TARGET_' + x):
                    if y not in d.dtype.names:
                        o = 'TARGET_' + x if y == x else x
                        a[y] = d[o] + g.normal(0, 2)
            d = extend(d, a)
        elif what == 'night':
            v = [x for x in ('LASTNIGHT', 'COADD_LASTNIGHT', 'LAST_NIGHT')
                 if x in d.dtype.names]
            if not v:
                return
            d = extend(d, {x: d[v[0]] * 0 + 20201215 + 10000 * k
                           for k, x in enumerate(
                               ('LASTNIGHT', 'COADD_LASTNIGHT',
                                'LAST_NIGHT')) if x not in v})
    os.unlink(fn)
    with fitsio.FITS(fn, 'rw') as f:
        f.write(d, extname=h)
        if what == 'ext':
            for x in ('QSO_CAT', 'ZCATALOG', 'METADATA'):
                if x != h:
                    k = g.permutation(d.size)[:max(1, d.size * 2 // 3)]
                    f.write(d[np.sort(k)], extname=x)


def extend(d, cols):
    dt = list(d.dtype.descr) + [(k, v.dtype.str) for k, v in cols.items()]
    e = np.zeros(d.size, dtype=dt)
    for k in d.dtype.names:
        e[k] = d[k]
    for k, v in cols.items():
        e[k] = v
    return e


class Job:
    """One command: base run here, another in the companion."""

    def __init__(self, ctx, case, tag=''):
        self.ctx, self.case, self.tag = ctx, case, tag
        m = self.mode = case['mode']
        self.S = dict(fit=fitcase, calib=calcase, coadd=coaddcase)[m].Setup(
            ctx, case)
        for a in case.get('amb', []):
            ambiguous(case, ctx.root, a)
        self.n = {'fit': lambda: fitcase.Setup.nranks(self.S),
                  'calib': lambda: case['n'], 'coadd': lambda: 1}[m]()

    def argv(self, out):
        return self.S.argv(out)

    def kw(self):
        # the default number of subsamples
        return dict(nsub=0) if self.mode == 'calib' else {}

    def base(self):
        return self.ctx.run(self.tag + 'base', self.mode, self.argv(
            self.tag + 'out1'), self.n, redseed=self.case['seed'],
            **self.kw())

    def stale(self):
        """An earlier run in the directory of the other one."""
        k = self.case['stale']
        if not k:
            return {}
        S, o = self.S, None
        if k == 'other':
            o = dict(S.o)
            if self.mode == 'fit' and not o['save_by_hpx']:
                o.update(num_iterations=1, cont_order=0, min_rsnr=0.,
                         min_forestsnr=0., skip=0.1, var_use_cov=False)
                if o.get('exposures') == 'before':
                    o = None
            elif self.mode == 'calib':
                o.update(nvarbins=o['nvarbins'] + 1, catalog=False,
                         bal=False, surveys=None)
            else:
                o = None
        old, S.o = S.o, o or S.o
        try:
            a = self.argv(self.tag + 'out2')
        finally:
            S.o = old
        self.ctx.run(self.tag + 'stale', self.mode, a, self.n)
        d = os.path.join(self.ctx.root, self.tag + 'out2')
        if not os.path.isdir(d):
            return {}
        self.ctx.note('stale-' + ('other' if o else 'same'))
        return {f: open(os.path.join(d, f), 'rb').read()
                for f in os.listdir(d)}

    def other(self):
        fl = [f for f in self.case['jumps'] if f['rank'] < self.n]
        return self.ctx.run_other(
            self.tag + 'other', self.mode, self.argv(self.tag + 'out2'),
            self.n, salt=self.case['salt'], redseed=self.case['seed'],
            policy=self.case['policy1'], faults=fl, **self.kw())

    def diff(self, old):
        A = os.path.join(self.ctx.root, self.tag + 'out2')
        B = os.path.join(self.ctx.root, self.tag + 'out1')
        out = []
        fa, fb = set(os.listdir(A)), set(os.listdir(B))
        for f in sorted(fb - fa):
            out.append(('file-set', f"{f} is missing in the second run"))
        for f in sorted(fa - fb):
            p = os.path.join(A, f)
            if f in old and open(p, 'rb').read() == old[f]:
                os.unlink(p)      # not an output of this run
            else:
                out.append(('file-set', f"{f} is written by the second run "
                            "only"))
        if out:
            return out
        if self.mode == 'fit':
            S = self.S
            lb = S.o['minimizer'] == 'l_bfgs_b'
            v = compare.cmp_fit(A, B, compare.Tol(1e-2 if lb else 3e-4, 1e-7),
                                skip=('CONT_xcov',) if lb else ())
            if S.o['var_use_cov']:
                v = [x for x in v if x[0] in HARD or 'VAR_STATS' in x[1]
                     or 'CONT]' in x[1] or 'delta differs' in x[1]]
            return v
        if self.mode == 'calib':
            return compare.cmp_calib(A, B, compare.Tol(1e-4, 1e-9))
        bad = []
        a = outputs.read_deltas(A, unreadable=bad)
        v = [('unreadable', f"{b}: {m}") for b, m in bad]
        return v + compare.cmp_deltas(a, outputs.read_deltas(B),
                                      compare.Tol(1e-9, 1e-12))


def once(ctx, case, tag=''):
    J = Job(ctx, case, tag)
    r1 = J.base()
    old = J.stale()
    r2 = J.other()
    return J, r1, r2, old


def judge(case, ctx):
    J, r1, r2, old = once(ctx, case)
    S = J.S
    if r1.ok != r2.ok:
        for r in (r1, r2):
            if not r.ok and not r.failed_loudly:
                return [('run-fails', r.describe())]
        if J.mode == 'fit' and (fitcase.degenerate_variance(S, 'out1')
                                or fitcase.degenerate_variance(S, 'out2')
                                or fitcase.diagnose(S, 'out1')):
            raise Inconclusive('degenerate-variance')
        return [('success-differs', f"first run: {r1.describe()}; second "
                 f"run: {r2.describe()}")]
    if not r1.ok:
        if J.mode == 'fit':
            return fitcase.fault_free_failure(r1, case, S, 'out1')
        if J.mode == 'calib':
            return S.failure(r1)
        return [('run-fails', r1.describe())]
    v = J.diff(old)
    if not v:
        return []
    lb = J.mode == 'fit' and S.o['minimizer'] == 'l_bfgs_b'
    if J.mode == 'coadd' or (not lb and any(x[0] in HARD for x in v)):
        return v[:5]
    # see C04: values at bin edges
    ctx.note('rounding-sensitive')
    hits = 0
    for k in range(3):
        sib = json.loads(json.dumps(case))
        if J.mode == 'fit':
            sib['world']['wseed'] += 1 + k
        else:
            sib['dw']['dseed'] += 1 + k
        ctx.wipe('in')
        T, a, b, old = once(ctx, sib, f's{k}')
        if a.ok and b.ok and T.diff(old):
            hits += 1
    if hits >= 2:
        return v[:5]
    raise Inconclusive('rounding-sensitive')


def reduce(case):
    for k, v in (('stale', None), ('jumps', []), ('amb', [])):
        if case.get(k):
            c = copy.deepcopy(case)
            c[k] = v
            yield c


