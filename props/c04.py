"""Fit results do not depend on process count or message timing."""
import json
import os

from sim import compare, fitcase, gen
from sim.ctx import Inconclusive

ID = 'C04'


def case(r, i, tier):
    c = fitcase.base_case(r, nmin=2, nmax=6)
    if i % 6 == 1 and c['world']['fmt'] == 'hpx':
        c['world'].update(exposures=r.randint(1, 3))
        c['opts'].update(exposures=r.choice(['after', 'before']),
                         model='picca')
    if c['opts']['var_use_cov']:
        c['opts']['num_iterations'] = 1
    c['policy1'] = r.choice(gen.POLICIES)
    c['twice'] = r.random() < .3
    return c


def judge(case, ctx):
    S = fitcase.Setup(ctx, case)
    n = S.nranks()
    if n < 2 and not case['twice']:
        raise Inconclusive('one-group')
    r1 = S.run('single', 'out1', n=1)
    r = S.run('main', 'out')
    if case['twice']:
        r2 = S.run('again', 'out2', policy=case['policy1'])
    A = os.path.join(ctx.root, 'out')
    if r.ok != r1.ok:
        if not r.failed_loudly and not r.ok:
            return [('run-fails', r.describe())]
        if fitcase.degenerate_variance(S, 'out1') or \
                fitcase.degenerate_variance(S, 'out'):
            raise Inconclusive('degenerate-variance')
        return [('success-differs', f"{n} processes: {r.describe()}; one "
                 f"process: {r1.describe()}")]
    if not r.ok:
        return fitcase.fault_free_failure(r, case, S)
    v = diff(S, ctx, 'out', 'out1', False)
    if case['twice'] and not v:
        if r2.ok != r.ok:
            return [('success-differs', f"two schedules: {r.describe()}; "
                     f"{r2.describe()}")]
        v = diff(S, ctx, 'out2', 'out', True)
    if not v or (S.o['minimizer'] != 'l_bfgs_b'
                 and any(x[0] in HARD for x in v)):
        return v[:5]
    # A value at the edge of a bin may fall on either side after rounding and
    # change the last digits of everything.  A real dependence on the process
    # count shows in sibling surveys too.
    ctx.note('rounding-sensitive')
    hits = 0
    for k in range(3):
        sib = json.loads(json.dumps(case))
        sib['world']['wseed'] += 1 + k
        ctx.wipe('in')
        T = fitcase.Setup(ctx, sib)
        a = T.run(f'sib{k}a', f's{k}a', n=1)
        b = T.run(f'sib{k}b', f's{k}b')
        if a.ok and b.ok and diff(T, ctx, f's{k}b', f's{k}a', False):
            hits += 1
    if hits >= 2:
        return v[:5]
    raise Inconclusive('rounding-sensitive')


def diff(S, ctx, a, b, same):
    # L-BFGS-B stops short of the minimum, where depends on rounding
    tol = compare.Tol(1e-2 if S.o['minimizer'] == 'l_bfgs_b' else RT, AT)
    v = compare.cmp_fit(os.path.join(ctx.root, a), os.path.join(ctx.root, b),
                        tol, same_n=same,
                        skip=('CONT_xcov',)
                        if S.o['minimizer'] == 'l_bfgs_b' else ())
    if S.o['var_use_cov']:
        # the covariance of a small sample is close to singular, and so its
        # use in the fit depends on rounding; only what precedes the fit
        v = [x for x in v if x[0] in HARD or 'VAR_STATS' in x[1]
             or 'CONT]' in x[1] or 'delta differs' in x[1]]
    return v


HARD = ('delta-set', 'delta-file', 'delta-columns', 'unreadable', 'file-set',
        'table-shape')
RT, AT = 3e-4, 1e-7
