"""What one program writes is a complete input of the next."""
import copy
import os

import numpy as np

from sim import fitcase, gen, pipeline
from sim.ctx import Inconclusive
from sim.oracle import FitOracle
from sim.refmodel import cub_interp, lin_interp

ID = 'C19'


def case(r, i, tier):
    wk = dict(nq=r.randint(34, 50), npix=r.randint(3, 8), extra_rows=1,
              lowsnr=0, negflux=0, nights=gen.pick(
                  r, ('sv', 2), ('m2', 1), ('y1', 1)),
              dwave=gen.pick(r, (3.2, 3), (4.0, 1)))
    ok = dict(noise_cal=False, flux_cal=False, additive=False,
              eta_calib_ivar=False)
    k = i % 6
    fmt = None
    if k == 1:
        fmt = 'hpx'
        wk.update(nq=r.randint(26, 34), exposures=r.randint(1, 3))
        ok.update(model='picca', exposures=r.choice(['after', 'before']))
    if k == 2:
        ok['coadd_arms'] = 'disable'
    if k == 4:
        ok['model'] = 'picca'
    c = fitcase.base_case(r, fmt, wk, ok, nmax=4)
    if k in (0, 3) and c['world']['fmt'] != 'tile':
        c['opts']['save_by_hpx'] = True
    w = c['world']
    c['coadd'] = r.random() < .7
    c['co'] = dict(nside=gen.pick(r, (8, 2), (2, 1), (64, 1)),
                   nest=r.random() < .4,
                   nproc=gen.pick(r, (1, 1), (2, 2), (4, 1)))
    c['calib_in'] = r.choice(['fit', 'coadd']) if c['coadd'] else 'fit'
    co = dict(nvarbins=r.randint(6, 10), use_cov=r.random() < .1,
              wave2=c['opts']['wave2'],
              nwbins=gen.pick(r, (None, 2), (5, 1), (7, 1)))
    if r.random() < .3:
        co['min_snr'] = gen.pick(r, (.3, 1), (.6, 1))
    if r.random() < .4 and w['fmt'] != 'mock':
        co['catalog'] = True
        co['bal'] = bool(w.get('bal')) and r.random() < .7
        if len(w.get('surveys', [])) > 1:
            co['surveys'] = ['main']
    c['ca'] = co
    c['remove'] = gen.pick(r, (0, 3), (1, 1), (3, 1))
    c['n2'] = r.randint(1, 5)
    c['cal_from'] = gen.pick(r, ('calib', 2), ('attributes', 1))
    if c['cal_from'] == 'attributes':
        # only a fit of the variance functions records them
        c['opts']['fid_varlss'] = False
        if c['opts'].get('model') == 'true':
            c['opts']['model'] = 'picca'
    c['o2'] = dict(
        noise_cal=r.random() < .75, flux_cal=r.random() < .6,
        num_iterations=r.choice([1, 2]),
        coadd_arms=r.choice(['before', 'after', 'disable']),
        save_by_hpx=w['fmt'] != 'tile' and r.random() < .4,
        var_fit_eta=r.random() < .2)
    if not (c['o2']['noise_cal'] or c['o2']['flux_cal']):
        c['o2']['noise_cal'] = True
    c['o2']['additive'] = c['o2']['noise_cal'] and r.random() < .35
    c['n3'] = r.randint(1, 4)
    return c


def tag(v, stage):
    return [(f'{stage}-{k}', f"{stage}: {m}") for k, m in v[:3]]


def judge(case, ctx):
    S = fitcase.Setup(ctx, case)
    r = S.run('fit', 'out', redseed=case['seed'])
    v = fitcase.fault_free_failure(r, case, S)
    if v:
        return tag(v, 'fit')
    root = ctx.root
    w1, dw = S.o['wave1'], S.W.P['dwave']
    A = pipeline.Chain([os.path.join(root, 'out')], w1, dw, S.W.Q)
    if A.problems:
        return [('fit-unreadable', f"{A.problems[0]}")]
    if not A.deltas:
        raise Inconclusive('no-deltas')
    if any(np.any(d.weight < 0) for d in A.deltas):
        # eta extrapolated from a tiny sample is negative somewhere
        raise Inconclusive('degenerate-variance')
    chain = A
    if case['coadd']:
        C = pipeline.CoaddStage(ctx, A, case['co'])
        r = C.run('coadd', 'coadd')
        if not r.ok:
            return [('coadd-fails', f"coadd: {r.describe()}")]
        v = C.judge('coadd')
        if v:
            return tag(v, 'coadd')
        ctx.note('coadded')
        if case['calib_in'] == 'coadd':
            chain = pipeline.Chain([os.path.join(root, 'coadd')], w1, dw,
                                   S.W.Q)
    path = os.path.join(root, 'out', 'attributes.fits')
    gave_up = False
    K = pipeline.CalibStage(ctx, chain, case['ca'], case['n2'])
    tids = sorted({d.tid for d in chain.deltas})
    K.remove(S.W.Q, S.W.catfile, tids[:case['remove']],
             {q['tid'] for q in S.W.Q if has_trough(S.W, q)})
    r = K.run('calib', 'calib')
    try:
        v = K.failure(r)
        if not v:
            v = K.judge('calib')
        if v:
            return tag(v, 'calib')
        ctx.note('calibrated')
        if case['cal_from'] == 'calib':
            path = K.outfile('calib')
    except Inconclusive:
        gave_up = True
        ctx.note('calib-gave-up')
    cal = pipeline.read_calibration(path)
    if cal is None:
        raise Inconclusive('attributes without fitted variance functions')
    o = dict(S.o, **case['o2'])
    w = np.arange(o['wave1'], o['wave2'], dw)
    eta = cub_interp(w, cal['w'][0], cal['w'][1] - cal['w'][0], cal['eta'])
    vl = cub_interp(w, cal['w'][0], cal['w'][1] - cal['w'][0], cal['vl'])
    sf = lin_interp(w, cal['ws'][0], cal['ws'][1] - cal['ws'][0], cal['sf'])
    for k, bad in (('noise_cal', eta.min() < .02),
                   ('additive', vl.min() < 0),
                   ('flux_cal', np.abs(sf).min() < .02)):
        if not o[k] or not bad:
            continue
        if k == 'flux_cal':
            raise Inconclusive('degenerate-calibration')
        # a tiny sample does not determine it; use the rest
        ctx.note('degenerate-' + k)
        o[k] = False
        if k == 'noise_cal':
            o.update(additive=False, flux_cal=True)
    S.W.calib, S.o = cal, o
    S.p = dict(S.p, calib=path)
    r = S.run('refit', 'out2', n=case['n3'])
    v = fitcase.fault_free_failure(r, case, S, 'out2')
    if v:
        return tag(v, 'refit')
    F = FitOracle(S.W, S.o, os.path.join(root, 'out2'),
                  S.nranks(case['n3']))
    out = []
    for m in ('rows', 'saved', 'data', 'blinding'):
        out += getattr(F, m)()
    out += F.continua(False)
    ctx.note('refit-' + case['cal_from'] if not gave_up else
             'refit-attributes')
    return tag(out, 'refit')


def has_trough(W, q):
    v = q['bal']
    return bool(W.P['bal'] and (
        np.any((v[0] > 0) & (v[1] > 0)) or np.any((v[2] > 0) & (v[3] > 0))))


def reduce(case):
    for k, x in (('coadd', False), ('remove', 0)):
        if case.get(k):
            c = copy.deepcopy(case)
            c[k] = x
            if k == 'coadd':
                c['calib_in'] = 'fit'
            yield c
