"""Delta coaddition yields one correct delta per target."""
import random

from sim import coaddcase, faults
from sim.ctx import Inconclusive

ID = 'C10'


def case(r, i, tier):
    c = coaddcase.case(r)
    if i % 3 == 0:
        c['u'] = [r.random(), r.random()]
        c['fault'] = r.choice(['io_error', 'io_error', 'disk_full',
                               'memory'])
    if i % 4 == 1:
        c['dirorder'] = r.randrange(1 << 20)
    return c


def judge(case, ctx):
    S = coaddcase.Setup(ctx, case)
    dirs = list(S.W.dirs)
    if case.get('dirorder') is not None:
        random.Random(case['dirorder']).shuffle(dirs)
    fl = case.get('faults')
    if fl is None and case.get('fault'):
        r0 = S.run('probe', 'out0')
        if not r0.ok:
            return [('run-fails', f"fault-free run: {r0.describe()}")]
        kinds = faults.WRITES if case['fault'] == 'disk_full' \
            else faults.FAULTABLE
        ev = faults.events(r0, kinds)
        e = faults.balanced(ev, *case['u'])
        if e is None:
            raise Inconclusive('no-event')
        if case['fault'] == 'io_error':
            # a directory of other events may precede it in another schedule,
            # so the point is given by file and operation
            f = dict(kind='io_error', path=e[3].replace('out0', 'out'),
                     ops=[e[2]], rank=0)
        else:
            f = dict(kind=case['fault'], rank=0, ev=e[1])
        fl = [f]
        case['faults'] = fl
    r = S.run('main', 'out', dirs=dirs, faults=fl or [])
    ctx.note('targets', len(S.W.targets))
    if r.deadlock or r.livelock or r.transport:
        return [('run-fails', r.describe())]
    if fl and r.fired:
        ctx.note('faulted-ok' if r.ok else 'faulted-failed')
        if r.failed_loudly:
            return []
        v = S.judge('out')
        if v:
            return [('silent-failure', f"{r.fired[0]} hit, the program "
                     f"reports success, but {v[0][1]}")]
        return []
    if not r.ok:
        return [('run-fails', f"fault-free run does not succeed: "
                 f"{r.describe()}")]
    return S.judge('out')


def reduce(case):
    import copy
    d = case['dw']
    for k, lo in (('nt', 1), ('nfiles', 1), ('arms', 1), ('copies', 1),
                  ('empties', 0), ('ndirs', 1)):
        if d.get(k, lo) > lo:
            for x in sorted({lo, (d[k] + lo) // 2, d[k] - 1}):
                c = copy.deepcopy(case)
                c['dw'][k] = x
                c['dw']['ndirs'] = min(c['dw'].get('ndirs', 1),
                                       c['dw']['nfiles'])
                yield c
    for k in ('masked', 'zerow', 'dead', 'gap', 'reso', 'mixed_diag', 'loglam',
              'f4', 'blind'):
        if d.get(k):
            c = copy.deepcopy(case)
            c['dw'][k] = 0.0 if isinstance(d[k], float) else False
            yield c
    for k in sorted(case['copts']):
        if case['copts'][k] != coaddcase.DEF[k]:
            c = copy.deepcopy(case)
            c['copts'][k] = coaddcase.DEF[k]
            yield c
