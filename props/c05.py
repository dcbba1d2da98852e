from sim import fitcase
from . import fitlike

ID = 'C05'


def case(r, i, tier):
    wk, ok = {}, {}
    if i % 4 == 0:
        # processes that lose everything to the cuts, many files per process
        wk = dict(npix=r.randint(6, 12), nq=r.randint(14, 22), uneven=True,
                  lowsnr=r.randint(2, 6), missing=r.randint(0, 4))
        ok = dict(min_rsnr=r.choice([0.5, 1.0, 1.5]))
    if i % 4 == 1:
        ok = dict(save_by_hpx=True)
    if i % 8 == 5:
        # arms without any positive flux are saved like any other
        wk.update(neg_arm=r.randint(2, 4))
        ok.update(coadd_arms='disable', min_forestsnr=-10., skip=.05)
    c = fitcase.base_case(r, worldkw=wk, optkw=ok)
    if i % 8 == 3:
        c['world'].update(fmt='hpx', exposures=r.randint(1, 3))
        c['world'].pop('arms', None)
        c['opts'].update(exposures=r.choice(['before', 'after']),
                         model='picca', fid_varlss=False, arms=['B', 'R'])
    if c['world']['fmt'] == 'tile':
        c['opts']['save_by_hpx'] = False
    return c


def judge(case, ctx):
    return fitlike.judge_fit(case, ctx, ('rows', 'saved'),
                             post=fitlike.single_writers)
