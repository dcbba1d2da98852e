from sim import fitcase
from . import fitlike

ID = 'C17'


def case(r, i, tier):
    wk, ok = {}, {}
    k = i % 8
    ok['sky'] = k in (0, 1, 2, 3)
    if ok['sky'] and r.random() < .5:
        ok['sky'] = 'wide'
    ok['dla'] = k in (0, 4, 5)
    ok['bal'] = k in (1, 4, 6)
    wk['bal'] = ok['bal']
    ok['noise_cal'] = k in (2, 5, 7)
    ok['flux_cal'] = k in (3, 5, 6, 7)
    ok['additive'] = ok['noise_cal'] and r.random() < 0.5
    ok['skip'] = r.choice([0.0, 0.2, 0.4, 0.6])
    ok['dla_zcol'] = r.choice(['Z_DLA', 'Z', 'Z_DLA'])
    wk['deadpix'] = r.choice([0.0, 0.3, 0.8])
    if r.random() < 0.2:
        wk['zero_arm'] = r.randint(2, 4)
    kw = {}
    if r.random() < .2:
        wk.update(npix=r.randint(9, 16), nq=r.randint(20, 28))
        kw = dict(nmax=2)
    return fitcase.base_case(r, worldkw=wk, optkw=ok, **kw)


def judge(case, ctx):
    return fitlike.judge_fit(case, ctx, ('rows', 'saved', 'data'))
