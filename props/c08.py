"""Rerunning after a crash at any point gives the clean result."""
import os

from sim import calcase, coaddcase, compare, faults, fitcase, outputs
from sim.ctx import Inconclusive

ID = 'C08'
TOL = (1e-9, 1e-12)


def case(r, i, tier):
    k = i % 8
    if k == 3:
        c = calcase.case(r, nmax=4)
        c['mode'] = 'calib'
    elif k == 7:
        c = coaddcase.case(r)
        c['mode'] = 'coadd'
    else:
        c = fitcase.base_case(r, nmin=1, nmax=4)
        c['mode'] = 'fit'
        if k == 1 and c['world']['fmt'] == 'hpx':
            c['world'].update(exposures=r.randint(1, 3))
            c['opts'].update(exposures=r.choice(['after', 'before']),
                             model='picca')
        if k in (2, 5) and c['world']['fmt'] != 'tile':
            c['opts']['save_by_hpx'] = True
    # each crash: where (class of event, which of them), how long the other
    # processes live on, and how much earlier the launcher noticed
    c['crashes'] = [dict(u=[r.random(), r.random()],
                         grace=r.choice([0, 0, 1, 3, 10, 40]),
                         late=r.random() < .5)
                    for _ in range(r.choice([1, 1, 1, 2, 3]))]
    c['complete_first'] = r.random() < .15
    return c


def setup(ctx, case):
    M = dict(fit=fitcase, calib=calcase, coadd=coaddcase)[case['mode']]
    S = M.Setup(ctx, case)
    n = S.nranks() if case['mode'] == 'fit' else case['n']
    kw = dict(redseed=case['seed'])
    if case['mode'] != 'coadd':
        kw['n'] = n
    return S, kw


def judge(case, ctx):
    S, kw = setup(ctx, case)
    mode = case['mode']
    r0 = S.run('probe', 'out', **kw)
    if not r0.ok:
        # a fault-free failure is another property's business
        if mode == 'fit':
            fitcase.fault_free_failure(r0, case, S)
        elif mode == 'calib':
            S.failure(r0)
        raise Inconclusive('program-gave-up: fault-free run')
    out, ref = os.path.join(ctx.root, 'out'), os.path.join(ctx.root, 'ref')
    os.rename(out, ref)
    if case['complete_first']:
        S.run('first', 'out', **kw)
    fl = case.get('kills')
    if fl is None:
        fl = []
        for c in case['crashes']:
            ev = faults.events(r0, None)
            if c['late'] and mode == 'fit':
                ev = [e for e in ev if e[2] in faults.WRITES] or ev
            e = faults.balanced(ev, *c['u'])
            fl.append(dict(kind='kill', rank=e[0], ev=e[1],
                           grace=c['grace']))
        case['kills'] = fl
    hit = []
    for i, f in enumerate(fl):
        r = S.run(f'crash{i}', 'out', faults=[f], **kw)
        if r.fired:
            hit.append(r.fired[0])
            ctx.note(f"kill-{r.fired[0][3]}")
        elif not r.ok:
            return [('rerun-fails', f"after {say(hit)}: {r.describe()}")]
    if not hit:
        raise Inconclusive('fault-not-reached')
    if mode != 'fit':
        # the order of the files decides how sums are rounded, and which
        # input's header is kept
        kw['seed'] = f"{case['seed']}-probe"
    r = S.run('rerun', 'out', **kw)
    what = "after " + say(hit)
    if not r.ok:
        return [('rerun-fails', f"{what}: {r.describe()}")]
    fa, fb = sorted(os.listdir(out)), sorted(os.listdir(ref))
    if fa != fb:
        return [('rerun-files', f"{what}: files {fa}, clean run {fb}")]
    tol = compare.Tol(*TOL)
    if mode == 'fit':
        v = compare.cmp_fit(out, ref, tol)
    elif mode == 'calib':
        v = compare.cmp_calib(out, ref, tol)
    else:
        bad = []
        A = outputs.read_deltas(out, unreadable=bad)
        B = outputs.read_deltas(ref)
        v = [('unreadable', f"{b}: {m}") for b, m in bad]
        v += compare.cmp_deltas(A, B, tol)
    return [('rerun-' + k, f"{what}: {m}") for k, m in v[:3]]


def say(hit):
    return ", ".join(f"a kill of process {h[1]} at {h[3]} {h[4]}"
                     for h in hit) or "earlier runs"


def reduce(case):
    import copy
    if len(case.get('kills') or []) > 1:
        for i in range(len(case['kills'])):
            c = copy.deepcopy(case)
            del c['kills'][i]
            yield c
    if case.get('complete_first'):
        c = copy.deepcopy(case)
        c['complete_first'] = False
        yield c
