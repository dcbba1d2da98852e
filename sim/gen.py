"""Random scenarios.  Everything is drawn from the generator passed in."""


def pick(r, *pairs):
    """Weighted choice: pick(r, (value, weight), ...)."""
    t = sum(w for _, w in pairs)
    x = r.random() * t
    for v, w in pairs:
        x -= w
        if x < 0:
            return v
    return pairs[-1][0]


def fit_world(r, fmt=None, small=False, **over):
    w = dict(wseed=r.randrange(1 << 30))
    w['fmt'] = fmt or pick(r, ('hpx', 6), ('mock', 2), ('tile', 2))
    w['nq'] = r.randint(16, 24)
    w['npix'] = r.randint(3, 7)
    w['dwave'] = pick(r, (3.2, 4), (4.0, 1), (1.6, 0.3))
    w['extra_rows'] = r.randint(0, 3)
    w['nout'] = r.randint(0, 3)
    w['nother'] = r.randint(0, 2) if w['fmt'] != 'mock' else 0
    w['uneven'] = r.random() < 0.4
    w['sparse_pix'] = r.random() < 0.3
    w['cat_shuffle'] = r.random() < 0.8
    w['has_hpx'] = r.random() < 0.7
    w['badpix'] = pick(r, (0.02, 4), (0.0, 1), (0.12, 1))
    w['deadpix'] = pick(r, (0.0, 3), (0.3, 1))
    w['colnames'] = pick(r, ('default', 2), ('target', 1), ('alt', 1))
    w['extname'] = pick(r, ('QSO_CAT', 2), ('ZCATALOG', 1), ('METADATA', 1),
                        ('', 0.5))
    w['nights'] = pick(r, ('sv', 2), ('m2', 1), ('y1', 1), ('y3', 1))
    if r.random() < 0.25 and w['fmt'] == 'hpx':
        w['surveys'] = ['main', 'sv3'] if r.random() < 0.7 \
            else ['main', 'sv1', 'sv3']
    w['missing'] = pick(r, (0, 4), (1, 1), (2, 1))
    w['lowsnr'] = pick(r, (0, 4), (2, 1))
    w['negflux'] = pick(r, (0, 4), (1, 1))
    w['zero_arm'] = pick(r, (0, 5), (4, 1))
    if w['fmt'] == 'tile':
        w['petals'] = r.randint(1, 3)
        w['dup_tid_tiles'] = pick(r, (0, 2), (2, 1))
    if r.random() < .12:
        # many groups per process
        w['npix'] = r.randint(9, 16)
        w['nq'] = max(w['nq'], w['npix'] + 4)
    w['near_ids'] = r.random() < .3
    w.update(over)
    return w


def fit_opts(r, w, **over):
    """Options compatible with world w (which may get columns added)."""
    o = {}
    o['coadd_arms'] = pick(r, ('before', 3), ('after', 2), ('disable', 2))
    o['num_iterations'] = pick(r, (1, 2), (2, 3), (3, 1))
    o['cont_order'] = pick(r, (1, 4), (0, 1), (2, 1))
    o['rfdwave'] = pick(r, (5., 3), (2., 1), (10., 1))
    o['smoothing_scale'] = pick(r, (16., 4), (0., 1), (40., 1))
    o['skip'] = pick(r, (0.2, 3), (0.0, 0.5), (0.4, 1))
    o['minimizer'] = pick(r, ('iminuit', 3), ('l_bfgs_b', 1))
    o['var_fit_eta'] = r.random() < 0.3
    o['var_use_cov'] = r.random() < 0.15
    o['normalize'] = r.random() < 0.25
    o['eta_calib_ivar'] = r.random() < 0.15
    o['min_rsnr'] = pick(r, (0., 3), (1.0, 1), (-10., 1))
    o['min_forestsnr'] = pick(r, (0., 3), (0.4, 1), (-10., 1))
    o['wave2'] = pick(r, (4700., 3), (4600., 1), (4500., 1))
    o['arms'] = pick(r, (['B', 'R'], 4), (['B'], 0.7), (['R', 'B'], 1))
    if r.random() < 0.15:
        w['arms'] = ['B', 'R', 'Z']
        if r.random() < 0.7:
            o['arms'] = ['B', 'R', 'Z']
    if w['fmt'] != 'mock':
        sv = w.get('surveys', ['main'])
        o['keep_surveys'] = list(sv)
        if len(sv) > 1 and r.random() < 0.2:
            o['keep_surveys'] = sv[:1]
    else:
        o['keep_surveys'] = ['main']
    o['sky'] = r.random() < 0.25
    o['dla'] = r.random() < 0.25
    o['noise_cal'] = r.random() < 0.2
    o['flux_cal'] = r.random() < 0.2
    o['additive'] = o['noise_cal'] and r.random() < 0.4
    if r.random() < 0.2:
        w['bal'] = True
        o['bal'] = True
    if r.random() < 0.25:
        w['reso'] = True
        o['skip_resomat'] = False
        w['ndiag'] = {'B': 7, 'R': pick(r, (7, 1), (9, 1)), 'Z': 7}
    o['fid_meanflux'] = r.random() < 0.2
    o['fid_varlss'] = r.random() < 0.2
    if w['fmt'] != 'tile':
        o['save_by_hpx'] = r.random() < 0.35
    if w['fmt'] == 'mock' and r.random() < 0.3:
        o['model'] = 'true'
    elif r.random() < 0.15:
        o['model'] = 'input'
        o['drop_targets'] = r.randint(0, 3)
        o['drop_files'] = pick(r, (0, 2), (1, 1))
        o['negcont'] = pick(r, (0, 1), (4, 1))
    if w['fmt'] == 'hpx' and r.random() < .05 and 'model' not in o:
        # a wide region of which the middle arm is missing
        w.update(arms=['B', 'R', 'Z'], zero_arm=3, zlo=2.2, zhi=2.9)
        o.update(arms=pick(r, (['B', 'R', 'Z'], 2), (['B', 'Z'], 1)),
                 forest_w2=1800., wave2=5900., min_rsnr=-10.)
        w.pop('coadd_dead', None)
    o.update(over)
    return o


def ranks(r, lo=1, hi=5):
    return r.randint(lo, hi)


POLICIES = ['uniform', 'sticky', 'roundrobin', 'starve', 'pct']


def schedule(r):
    return dict(seed=r.randrange(1 << 30), policy=r.choice(POLICIES))
