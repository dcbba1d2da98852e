"""Synthetic delta files as input of the calibration and coaddition programs.

Deltas are pure functions of the parameters; what is written to a file is kept
in memory for the reference computations.
"""
import os

import fitsio
import healpy
import numpy as np

TID0 = 39627000000000000


class D:
    """One delta as written."""
    __slots__ = ('tid', 'arm', 'file', 'dir', 'wave', 'delta', 'ivar',
                 'weight', 'cont', 'reso', 'hdr', 'blind', 'snr', 'i0', 'pos')


class DeltaWorld:
    """P: dseed, nt, nfiles, ndirs, dw, span, reso, blind, masked, hot,
    empties, loglam, idkey, copies, arms, gz, same_los."""

    def __init__(self, P):
        self.P = dict(dict(
            nt=40, nfiles=4, ndirs=1, dw=4.0, w1=3600., w2=4700., reso=False,
            blind=False, masked=0.05, empties=0, loglam=False,
            idkey='TARGETID', copies=1, arms=1, gz=False, mixed_diag=False,
            noise=1.0, dead=0.0, survey_bits=True, bals=0.0, hdrvar=False,
            f4=False, gap=0.0, snr_edge=False, los=True, twoid=False,
            twocol=False, near=False, faint=0.0), **P)
        self.make()

    def make(self):
        P = self.P
        g = np.random.default_rng(P['dseed'])
        ng = int(round((P['w2'] - P['w1']) / P['dw']))
        self.grid = P['w1'] + P['dw'] * np.arange(ng + 1)
        G = self.grid
        self.targets = []
        # neighbouring identifiers are equal in single or double precision
        tids = TID0 + g.choice(P['nt'] * 3 // 2 if P['near'] else 100000,
                               P['nt'], replace=False)
        base = [(g.uniform(0, 2 * np.pi), np.arcsin(g.uniform(-.9, .9)))
                for _ in range(P['npix'] if 'npix' in P else 5)]
        self.deltas = []
        for t, tid in enumerate(tids):
            b = base[int(g.integers(len(base)))]
            ra = (b[0] + g.normal(0, .004)) % (2 * np.pi)
            dec = float(np.clip(b[1] + g.normal(0, .004), -1.5, 1.5))
            z = float(g.uniform(2.0, 2.8))
            srv = ['main', 'main', 'sv3'][int(g.integers(3))]
            T = dict(tid=int(tid), ra=float(ra), dec=dec, z=z, survey=srv,
                     bal=bool(g.random() < P['bals']),
                     bal2=bool(g.random() < P['bals'] / 2))
            self.targets.append(T)
            nc = int(g.integers(1, P['copies'] + 1))
            for c in range(nc):
                for a in range(int(g.integers(1, P['arms'] + 1))):
                    self.deltas.append(self._delta(g, T, c, a))
        # assign to files
        nf, nd = P['nfiles'], P['ndirs']
        files = [(k % nd, f'delta-{k}.fits') for k in range(nf)]
        for d in self.deltas:
            d.dir, d.file = files[int(g.integers(nf))]
        self.files = {f: [] for f in files}
        for d in self.deltas:
            d.pos = len(self.files[(d.dir, d.file)])
            self.files[(d.dir, d.file)].append(d)
        for k in range(P['empties']):
            self.files[(int(g.integers(nd)), f'delta-{nf + k}.fits')] = []
        if P['gz']:
            self.files = {(a, f + '.gz' if i % 2 else f): v
                          for i, ((a, f), v) in enumerate(self.files.items())}
            for (a, f), v in self.files.items():
                for d in v:
                    d.file = f
        del G

    def _delta(self, g, T, c, a):
        P, G = self.P, self.grid
        d = D()
        d.tid = T['tid']
        d.arm = 'BRZ'[a]
        n = G.size
        length = int(g.integers(max(8, n // 6), max(10, n // 2)))
        i0 = int(g.integers(0, n - length))
        if P['gap'] and g.random() < P['gap']:
            length = int(g.integers(6, max(8, n // 10)))
            i0 = int(g.choice([0, n - length - 1, int(g.integers(
                0, n - length))]))
        faint = P['faint'] and g.random() < P['faint']
        if faint:
            i0 = int(g.choice([0, n - length - 1]))
        d.i0 = i0
        d.wave = G[i0:i0 + length].copy()
        sig = 10**g.uniform(-0.9, 0.35) * P['noise']
        if faint:
            sig *= 1e3
        d.ivar = sig**-2 * g.uniform(0.6, 1.6, length)
        d.cont = np.exp(g.normal(0, .3)) * (1 + .1 * np.sin(d.wave / 90.))
        lss = 0.05 + 0.1 * (d.wave - P['w1']) / (P['w2'] - P['w1'])
        d.delta = g.normal(0, 1, length) * np.sqrt(1 / d.ivar + lss)
        d.weight = d.ivar / (1 + d.ivar * lss)
        m = g.random(length) < P['masked']
        if P['dead'] and g.random() < P['dead']:
            k = int(g.integers(1, length))
            m[:k] = True
        if m.all():
            m[0] = False
        d.ivar[m] = 0
        d.weight[m] = 0
        d.delta[m] = g.choice([0., 1., -3.])
        if P.get('zerow') and g.random() < P['zerow']:
            # measured, but given no weight
            z = g.random(length) < .2
            z[np.argmax(d.ivar > 0)] = False
            d.weight[z] = 0
        d.reso = None
        if P['reso']:
            nd = 5 if not (P['mixed_diag'] and g.random() < .4) else 9
            d.reso = g.random((length, nd))
        d.blind = P['blind']
        good = d.ivar > 0
        d.snr = float(np.dot(np.sqrt(d.ivar), (1 + d.delta) * good)
                      / max(1, good.sum()))
        if P['snr_edge'] and g.random() < .15:
            d.snr = float(g.choice([1.0, 2.0]))
        d.hdr = dict(LOS_ID=d.tid, RA=T['ra'], DEC=T['dec'], Z=T['z'],
                     MEANZ=float(np.mean(d.wave) / 1215.67 - 1),
                     MEANRESO=0.0, MEANSNR=d.snr, DELTA_LAMBDA=P['dw'],
                     SMSCALE=20., HPXPIXEL=7)
        d.hdr[P['idkey']] = d.tid
        if P['idkey'] == 'LOS_ID':
            d.hdr['TARGETID'] = d.tid
        if P['twoid']:
            for q, k in enumerate(('TARGETID', 'MOCKID', 'THING_ID')):
                d.hdr.setdefault(k, d.tid + 1000000 * (q + 1))
        return d

    def write(self, root):
        self.root = root
        P = self.P
        self.dirs = []
        for k in range(P['ndirs']):
            p = os.path.join(root, f'd{k}')
            os.makedirs(p, exist_ok=True)
            self.dirs.append(p)
        for (k, f), L in self.files.items():
            with fitsio.FITS(os.path.join(self.dirs[k], f), 'rw',
                             clobber=True) as ft:
                if not L:
                    ft.write(np.zeros(1), ignore_empty=True)
                for d in L:
                    x = np.log10(d.wave) if P['loglam'] else d.wave
                    cols = [x, d.delta, d.ivar, d.weight, d.cont]
                    if P['f4']:
                        cols = [x] + [q.astype('f4') for q in cols[1:]]
                        d.delta, d.ivar, d.weight, d.cont = [
                            q.astype('f8') for q in cols[1:]]
                    names = ['LOGLAM' if P['loglam'] else 'LAMBDA',
                             'DELTA_BLIND' if d.blind else 'DELTA', 'IVAR',
                             'WEIGHT', 'CONT']
                    if P['twocol']:
                        names.append('DELTA' if d.blind else 'DELTA_BLIND')
                        cols.append(d.delta * .5)
                    if d.reso is not None:
                        cols.append(d.reso)
                        names.append('RESOMAT')
                    ft.write(cols, names=names, header=d.hdr,
                             extname=f'{d.tid}-{d.arm}')
        return self

    # -- calibration options ----------------------------------------------
    def write_removal(self, ids):
        fn = os.path.join(self.root, 'remove.txt')
        with open(fn, 'w') as f:
            f.write('\n'.join(str(i) for i in ids) + '\n')
        return fn

    def write_catalog(self, seed=0, bal=True):
        g = np.random.default_rng([self.P['dseed'], 77, seed])
        T = list(self.targets)
        g.shuffle(T)
        dt = [('TARGETID', 'i8'), ('RA', 'f8'), ('DEC', 'f8'), ('Z', 'f8'),
              ('SURVEY', 'S6'), ('LASTNIGHT', 'i4')]
        if bal:
            for n in ('VMIN_CIV_450', 'VMAX_CIV_450', 'VMIN_CIV_2000',
                      'VMAX_CIV_2000'):
                dt.append((n, 'f4', (3,)))
        a = np.zeros(len(T), dtype=dt)
        for i, t in enumerate(T):
            a['TARGETID'][i] = t['tid']
            a['RA'][i], a['DEC'][i] = np.degrees(t['ra']), \
                np.degrees(t['dec'])
            a['Z'][i], a['SURVEY'][i] = t['z'], t['survey']
            a['LASTNIGHT'][i] = 20210101
        if bal:
            for n in ('VMIN_CIV_450', 'VMAX_CIV_450', 'VMIN_CIV_2000',
                      'VMAX_CIV_2000'):
                a[n] = -1
            for i, t in enumerate(T):
                if t['bal']:
                    k = int(g.integers(3))
                    a['VMIN_CIV_450'][i, k] = 500.
                    a['VMAX_CIV_450'][i, k] = 3000.
                if t['bal2']:
                    k = int(g.integers(3))
                    a['VMIN_CIV_2000'][i, k] = 2500.
                    a['VMAX_CIV_2000'][i, k] = 5000.
        fn = os.path.join(self.root, 'cat.fits')
        fitsio.write(fn, a, extname='ZCATALOG', clobber=True)
        return fn

    def hpx(self, tid, nside, nest):
        t = [x for x in self.targets if x['tid'] == tid][0]
        return int(healpy.ang2pix(nside, np.degrees(t['ra']),
                                  np.degrees(t['dec']), lonlat=True,
                                  nest=nest))
