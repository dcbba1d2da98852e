"""Outputs of one program as inputs of the next."""
import os

import healpy
import numpy as np

from . import calcase, coaddcase, outputs
from .deltaworld import D

KEYS = ('LOS_ID', 'TARGETID', 'RA', 'DEC', 'Z', 'BLINDING', 'WAVE_SOLUTION',
        'MEANSNR', 'DELTA_LAMBDA', 'SMSCALE')
MORE = ('TILEID', 'FIBER', 'PETAL_LOC', 'EXPID', 'NIGHT', 'RSNR')


class Chain:
    """Looks like a DeltaWorld; its deltas were written by a program."""

    def __init__(self, dirs, wave1, dw, quasars):
        self.dirs = dirs
        self.P = dict(dw=dw)
        self.deltas = []
        pos = {q['tid']: (q['ra'], q['dec']) for q in quasars}
        self.pos = pos
        hi = 0
        self.problems = []
        for k, p in enumerate(dirs):
            bad = []
            for x in outputs.read_deltas(p, unreadable=bad):
                d = D()
                d.tid = x.tid
                d.arm, d.file, d.dir = x.arm, x.file, k
                d.wave, d.ivar, d.weight = x.wave, x.ivar, x.weight
                d.delta, d.cont, d.reso = x.delta, x.cont, x.reso
                d.blind = x.blindcol
                d.snr = float(x.hdr['MEANSNR'])
                d.i0 = int(round((x.wave[0] - wave1) / dw))
                d.hdr = {a: x.hdr[a] for a in KEYS + MORE if a in x.hdr}
                d.pos = 0
                hi = max(hi, d.i0 + d.wave.size)
                self.deltas.append(d)
            self.problems += bad
        self.grid = wave1 + dw * np.arange(hi + 1)
        self.P['blind'] = any(d.blind for d in self.deltas)

    def hpx(self, tid, nside, nest):
        ra, dec = self.pos[tid]
        return int(healpy.ang2pix(nside, ra, dec, lonlat=True, nest=nest))


class CalibStage(calcase.Setup):
    def __init__(self, ctx, chain, copts, n):
        self.ctx, self.case = ctx, dict(n=n)
        self.o = dict(calcase.DEF, decoys=False, **copts)
        self.W, self.p, self.removed = chain, {}, set()

    def remove(self, quasars, catfile, lst, bals):
        """bals: tids with a trough in the catalog"""
        o = self.o
        if lst:
            fn = os.path.join(self.ctx.root, 'in', 'remove.txt')
            with open(fn, 'w') as f:
                f.write('\n'.join(str(i) for i in lst) + '\n')
            self.p['remove'] = fn
            self.removed |= set(lst)
        if o['catalog']:
            self.p['cat'] = catfile
            if o['bal']:
                self.removed |= set(bals)
            if o['surveys']:
                self.removed |= {q['tid'] for q in quasars
                                 if q['survey'] not in o['surveys']}


class CoaddStage(coaddcase.Setup):
    def __init__(self, ctx, chain, copts):
        self.ctx, self.case = ctx, dict(n=1)
        self.o = dict(coaddcase.DEF, **copts)
        self.W = chain


def read_calibration(path):
    """What the fitting program takes from a calibration file."""
    T = {t[0]: t[2] for t in outputs.read_tables(path)}
    if 'VAR_FUNC' not in T and 'VAR_FUNC-fit' in T:
        return None
    v, s = T['VAR_FUNC'], T['STACKED_FLUX']
    eta = np.array(v['eta'], dtype='f8')
    sf = np.array(s['stacked_flux'], dtype='f8')
    return dict(w=np.array(v['lambda'], dtype='f8'),
                eta=np.where(eta == 0, 1, eta),
                vl=np.array(v['var_lss'], dtype='f8'),
                ws=np.array(s['lambda'], dtype='f8'),
                sf=np.where(sf == 0, 1, sf))
