from sim import fitcase
from . import fitlike

ID = 'C06'


def case(r, i, tier):
    wk, ok = {}, {}
    if i % 3 == 0:
        wk = dict(extra_rows=r.randint(1, 4), missing=r.randint(0, 3),
                  cat_shuffle=True, badpix=r.choice([0.02, 0.12]))
    if i % 3 == 1:
        wk = dict(reso=True, ndiag={'B': 7, 'R': r.choice([7, 9, 5]), 'Z': 7})
        ok = dict(skip_resomat=False)
    c = fitcase.base_case(r, worldkw=wk, optkw=ok)
    if i % 6 == 5 and c['world']['fmt'] == 'hpx':
        c['world'].update(exposures=r.randint(1, 3))
        c['opts'].update(exposures='before', model='picca')
    return c


def judge(case, ctx):
    return fitlike.judge_fit(case, ctx, ('rows', 'data'))
