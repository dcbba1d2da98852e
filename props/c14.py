from sim import fitcase
from . import fitlike

ID = 'C14'


def case(r, i, tier):
    wk = dict(exposures=r.randint(1, 4), nq=r.randint(12, 20))
    if i % 2 == 0:
        wk['surveys'] = r.choice([['main', 'sv3'], ['main', 'sv1', 'sv3']])
    if i % 5 == 1:
        wk['coadd_dead'] = [r.choice(['B', 'R']), r.randint(2, 4)]
    if i % 5 == 2:
        wk['expo_dead'] = [r.choice(['B', 'R']), r.randint(2, 4)]
    if i % 5 == 3:
        wk.update(lowsnr=r.randint(2, 5))
    if i % 5 == 4:
        # in the coadd but not among the exposures
        wk['expo_missing'] = r.randint(2, 5)
    ok = dict(model='picca', exposures='after' if i % 4 else 'before')
    if i % 5 == 1 and i % 4:
        # the coadd of the arms is shorter than that of the exposures
        wk.update(arms=['B', 'R'], zlo=2.6, zhi=3.1)
        ok['coadd_arms'] = r.choice(['before', 'before', 'after'])
    if i % 7 == 3:
        ok['min_rsnr'] = 1.0
    if r.random() < .5:
        wk['reso'] = True
        ok['skip_resomat'] = False
    c = fitcase.base_case(r, 'hpx', wk, ok)
    return c


def judge(case, ctx):
    return fitlike.judge_fit(case, ctx, ('rows', 'saved', 'data', 'continua'),
                             minimality=False)
