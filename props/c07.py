from sim import fitcase
from . import fitlike

ID = 'C07'
EDGES = [20210513, 20210514, 20210731, 20210801, 20220731, 20220801]
OLD = [20201214, 20210101, 20210513]
ALL = EDGES + OLD + [20210620, 20211111, 20230505, 20210515, 20210802]


def case(r, i, tier):
    fmt = 'mock' if i % 10 == 9 else r.choice(['hpx', 'hpx', 'tile'])
    wk = dict(nq=r.randint(12, 18), npix=r.randint(2, 6), dwave=4.0)
    mode = i % 4
    npix = wk['npix']
    if mode == 0:
        # one group new, all others old
        a = [r.choice(OLD) for _ in range(npix)]
        a[r.randrange(npix)] = r.choice(ALL)
        wk['night_pix'] = a
    elif mode == 1:
        wk['night_pix'] = [r.choice(ALL) for _ in range(npix)]
    elif mode == 2:
        # a single new quasar among old ones
        a = [[r.choice(OLD)] * 5 for _ in range(npix)]
        k = r.randrange(npix)
        a[k] = a[k][:4] + [r.choice(ALL)]
        wk['night_pix'] = a
    else:
        # only quasars that are not selected are new
        wk['night_pix'] = [r.choice(OLD) for _ in range(npix)]
        wk['night_out'] = r.choice(ALL)
        wk['nout'], wk['nother'] = 2, 2 if fmt != 'mock' else 0
    ok = dict(num_iterations=1, var_use_cov=False, dla=False,
              model='picca')
    x = r.random()
    if x < 0.15:
        ok.update(forest_w1=1280., forest_w2=1480.)
        wk.update(zlo=1.6, zhi=2.3)
    elif x < .25:
        # the Lya line itself is inside
        ok.update(forest_w1=1150., forest_w2=1290.)
        wk.update(zlo=2.0, zhi=2.6)
    c = fitcase.base_case(r, fmt, wk, ok, nmin=1, nmax=6)
    if i % 5 == 4 and fmt == 'hpx':
        c['world'].update(exposures=2)
        c['opts'].update(exposures=r.choice(['before', 'after']))
    return c


def judge(case, ctx):
    return fitlike.judge_fit(case, ctx, ('blinding',))
