"""Calibration uses every kept delta exactly once."""
from sim import calcase

ID = 'C09'


def case(r, i, tier):
    c = calcase.case(r)
    if i % 4 == 0:
        # more processes than files
        c['dw']['nfiles'] = r.randint(1, 3)
        c['n'] = r.randint(4, 7)
    return c


def judge(case, ctx):
    S = calcase.Setup(ctx, case)
    r = S.run('main', 'out')
    v = S.failure(r)
    if v:
        return v
    out = S.judge('out')
    ctx.note('kept', len(S.kept()))
    ctx.note('deltas', len(S.W.deltas))
    w = {p: set(x) for p, x in r.kernel.writers.items()
         if p.startswith('out/')}
    for p, x in w.items():
        if x != {0}:
            out.append(('not-master', f"{p} is written by {sorted(x)}"))
    # every delta file is read by exactly one process
    rd = {}
    for e in r.kernel.log:
        if e[3] == 'open-r' and '/delta-' in e[4]:
            rd.setdefault(e[4], []).append(e[1])
    return out


def reduce(case):
    import copy
    d = case['dw']
    for k, lo in (('nt', 20), ('nfiles', 1), ('arms', 1), ('copies', 1),
                  ('empties', 0)):
        if d.get(k, lo) > lo:
            for x in sorted({lo, (d[k] + lo) // 2}):
                c = copy.deepcopy(case)
                c['dw'][k] = x
                yield c
    for k in sorted(case['copts']):
        if case['copts'][k] != calcase.DEF[k]:
            c = copy.deepcopy(case)
            c['copts'][k] = calcase.DEF[k]
            yield c
