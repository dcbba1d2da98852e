"""Options of the fitting program as a dictionary; argv from it."""
import os

DEFAULT = dict(
    arms=['B', 'R'], coadd_arms='before', exposures='disable',
    save_by_hpx=False, skip_resomat=True, keep_surveys=['main'],
    wave1=3600., wave2=4700., forest_w1=1050., forest_w2=1180.,
    smoothing_scale=16., min_rsnr=0., min_forestsnr=0., skip=0.2,
    num_iterations=2, model='picca', fid_meanflux=False, fid_varlss=False,
    cont_order=1, var_fit_eta=False, var_use_cov=False, normalize=False,
    eta_calib_ivar=False, rfdwave=5., minimizer='iminuit', sky=False,
    bal=False, dla=False, noise_cal=False, flux_cal=False, additive=False,
    drop_targets=0, drop_files=0, negcont=0, garbage=0, dla_zcol='Z_DLA',
    noise_file='calib', flux_file='calib',
)


def full(o):
    d = dict(DEFAULT)
    d.update(o)
    return d


def write_aux(W, o):
    """Write the auxiliary input files the options need; returns paths."""
    p = {}
    if o['sky']:
        p['sky'] = W.write_sky_mask(o['sky'] == 'wide')
    if o['dla']:
        p['dla'] = W.write_dla(o['dla_zcol'])
    if o['noise_cal'] or o['flux_cal']:
        p['calib'] = W.write_calib()
    if o['fid_meanflux'] or o['fid_varlss'] or o['model'] == 'true':
        p['fid'] = W.write_fiducial()
    if o['model'] == 'input':
        p['incont'] = W.write_input_cont(
            o['drop_targets'], o['drop_files'], o['negcont'],
            o['garbage'])
    return p


def argv(W, o, p, out):
    a = ['-i', W.datadir, '--catalog', W.catfile]
    if out:
        a += ['-o', out]
    fmt = W.P['fmt']
    if fmt == 'tile':
        a += ['--tile-format']
    if fmt == 'mock':
        a += ['--mock-analysis']
    if o['keep_surveys']:
        a += ['--keep-surveys'] + list(o['keep_surveys'])
    if o['skip_resomat']:
        a += ['--skip-resomat']
    a += ['--arms'] + list(o['arms'])
    a += ['--coadd-arms', o['coadd_arms'], '--exposures', o['exposures']]
    if o['save_by_hpx']:
        a += ['--save-by-hpx']
    for k in ('wave1', 'wave2', 'forest_w1', 'forest_w2', 'smoothing_scale',
              'min_rsnr', 'min_forestsnr', 'skip', 'num_iterations',
              'cont_order', 'rfdwave', 'minimizer'):
        a += ['--' + k.replace('_', '-'), str(o[k])]
    for k, f in (('var_fit_eta', '--var-fit-eta'),
                 ('var_use_cov', '--var-use-cov'),
                 ('normalize', '--normalize-stacked-flux'),
                 ('eta_calib_ivar', '--eta-calib-ivar'),
                 ('additive', '--varlss-as-additive-noise'),
                 ('bal', '--bal-mask')):
        if o[k]:
            a += [f]
    if o['sky']:
        a += ['--sky-mask', p['sky']]
    if o['dla']:
        a += ['--dla-mask', p['dla']]
    if o['noise_cal']:
        a += ['--noise-calibration', p['calib']]
    if o['flux_cal']:
        a += ['--flux-calibration', p['calib']]
    if o['fid_meanflux'] or o['model'] == 'true':
        a += ['--fiducial-meanflux', p['fid']]
    if o['fid_varlss'] or o['model'] == 'true':
        a += ['--fiducial-varlss', p['fid']]
    if o['model'] == 'true':
        a += ['--true-continuum'] if o.get('true_alias') \
            else ['--continuum-model', 'true']
    if o['model'] == 'input':
        a += ['--input-continuum-dir', p['incont']]
    return a
