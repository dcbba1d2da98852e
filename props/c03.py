"""A run finishes completely or fails visibly; it never hangs."""
import os

from sim import calcase, compare, faults, fitcase
from sim.ctx import Inconclusive

ID = 'C03'


def case(r, i, tier):
    if i % 4 == 3:
        c = calcase.case(r)
        c['mode'] = 'calib'
    else:
        c = fitcase.base_case(r, nmin=1, nmax=5)
        c['mode'] = 'fit'
        if i % 8 == 1:
            c['opts'].update(model='input', drop_targets=r.randint(0, 2),
                             drop_files=0)
            c['world']['fmt'] = 'hpx'
            c['world'].pop('petals', None)
        if i % 8 == 2 and c['world']['fmt'] == 'hpx':
            c['world'].update(exposures=r.randint(1, 3))
            c['opts'].update(exposures=r.choice(['after', 'before']),
                             model='picca')
        if c['n'] == 1 and r.random() < .8:
            c['n'] = r.randint(2, 5)
    c['fault'] = r.choice(['io_error'] * 5 + ['disk_full'] * 2
                          + ['memory'] * 3)
    c['u'] = [r.random(), r.random()]
    c['two'] = r.random() < .2
    c['u2'] = [r.random(), r.random()]
    return c


def plan(case, r0):
    def one(kind, u):
        if kind == 'io_error':
            ev = faults.events(r0, faults.FAULTABLE)
        elif kind == 'disk_full':
            ev = faults.events(r0, faults.WRITES)
        else:
            ev = faults.events(r0, None)
            ev = [e for e in ev if e[2] != 'exit']
        e = faults.balanced(ev, *u)
        if e is None:
            raise Inconclusive('no-event')
        return dict(kind=kind, rank=e[0], ev=e[1])
    fl = [one(case['fault'], case['u'])]
    if case['two']:
        fl.append(one('io_error', case['u2']))
    return fl


def judge(case, ctx):
    fit = case['mode'] == 'fit'
    S = (fitcase if fit else calcase).Setup(ctx, case)
    n = S.nranks() if fit else case['n']
    r0 = S.run('probe', 'out', n=n, redseed=case['seed'])
    v = fitcase.fault_free_failure(r0, case, S) if fit else S.failure(r0)
    if v:
        # a fault-free failure is another property's business, a hang ours
        return [x for x in v if not r0.failed_loudly]
    if case.get('faults') is None:
        case['faults'] = plan(case, r0)
    os.rename(os.path.join(ctx.root, 'out'), os.path.join(ctx.root, 'out0'))
    r = S.run('main', 'out', n=n, faults=case['faults'],
              redseed=case['seed'])
    if not r.fired:
        raise Inconclusive('fault-not-reached')
    f = r.fired[0]
    what = f"{f[0]} on process {f[1]} at {f[3]} {f[4]}"
    if r.deadlock or r.livelock or r.transport:
        ctx.note('hang')
        return [('hang', f"{what}: {r.describe()}")]
    if r.failed_loudly:
        ctx.note('failed-' + f[0])
        if not any(c not in (0, None) for c in r.exitcodes) and \
                r.aborted is None:
            return [('silent-failure', what)]
        return []
    if not r.ok:
        return [('hang', f"{what}: {r.describe()}")]
    ctx.note('ok-' + f[0])
    ref = 'out0'
    hit = sorted({(x[1], x[4]) for x in r.fired
                  if x[4].startswith('in/incont/')})
    if hit:
        # that file counts as missing for that process
        ctx.note('incont-file-lost')
        r1 = S.run('without', 'out1', n=n, redseed=case['seed'], faults=[
            dict(kind='io_error', path=x, ops=['open-r'], rank=k, repeat=True)
            for k, x in hit])
        if not r1.ok:
            raise Inconclusive('program-gave-up: without input continuum')
        ref = 'out1'
    A, B = os.path.join(ctx.root, 'out'), os.path.join(ctx.root, ref)
    tol = compare.Tol(1e-9, 1e-12)
    v = compare.cmp_fit(A, B, tol) if fit else compare.cmp_calib(A, B, tol)
    return [('silent-loss', f"{what}: reports success but {m}")
            for _, m in v[:3]]


def reduce(case):
    if len(case.get('faults') or []) > 1:
        import copy
        for i in range(len(case['faults'])):
            c = copy.deepcopy(case)
            del c['faults'][i]
            yield c
