"""Synthetic survey generator.  A world is a pure function of its parameters
(a JSON dictionary), written with plain (unsimulated) I/O into a directory."""
import os
import random

import fitsio
import healpy
import numpy as np

LYA = 1215.67


def _rng(*key):
    import hashlib
    h = hashlib.sha256(repr(key).encode()).digest()
    return np.random.default_rng(int.from_bytes(h[:8], 'little'))


DEFAULTS = dict(
    wseed=1, fmt='hpx', nq=14, npix=4, surveys=['main'], dwave=3.2,
    arms=['B', 'R'], reso=False, ndiag={'B': 7, 'R': 7, 'Z': 7},
    extra_rows=2, missing=0, cat_shuffle=True, colnames='default',
    extname='QSO_CAT', has_hpx=True, nights='sv', bal=False,
    wave1=3600., wave2=4900., zlo=2.15, zhi=2.95, nout=2, nother=1,
    exposures=0, badpix=0.02, tiny_arm=False, petals=2, lowsnr=0, negflux=0,
    dup_tid_tiles=0, cat_extra_cols=True, bigendian=False, zero_arm=0,
    idbase=39627000000000000, sparse_pix=False, deadpix=0.0, uneven=False,
    night_pix=None, coadd_dead=None, expo_dead=None, missing_groups=0,
    expo_missing=0, near_ids=False, neg_arm=0,
)

ARM_RANGES = {'B': (3600., 4500.), 'R': (4400., 5300.), 'Z': (5200., 6000.)}


def wave_grids(P):
    dw = P['dwave']
    out = {}
    for arm in P['arms']:
        lo, hi = ARM_RANGES[arm]
        i0 = int(round((lo - 3600.) / dw))
        i1 = int(round((hi - 3600.) / dw))
        out[arm] = 3600. + dw * np.arange(i0, i1 + 1)
    return out


def mean_flux(w):
    return np.exp(-0.35 * ((w / 4000.)**2.2))


def unabs_cont(wrf, a, s, q):
    x = np.log(wrf / 1100.)
    c = a * (1 + s * x + q * x**2)
    c = c * (1 + 0.6 * np.exp(-(wrf - LYA)**2 / 2 / 14.**2)
             + 0.12 * np.exp(-(wrf - 1073.)**2 / 2 / 12.**2)
             + 0.10 * np.exp(-(wrf - 1123.)**2 / 2 / 9.**2))
    return c


class World:
    def __init__(self, params):
        P = dict(DEFAULTS)
        P.update(params)
        self.P = P
        self.waves = wave_grids(P)
        self._make_quasars()

    # -- sky and targets ----------------------------------------------------
    def _make_quasars(self):
        P = self.P
        g = _rng('sky', P['wseed'])
        mock = P['fmt'] == 'mock'
        nside = 16 if mock else 64
        self.nside = nside
        npixtot = 12 * nside**2
        lo = 0
        if P['sparse_pix']:
            pix = g.choice(npixtot, P['npix'], replace=False)
        else:
            p0 = int(g.integers(lo, npixtot - 4 * P['npix']))
            pix = p0 + g.choice(3 * P['npix'], P['npix'], replace=False)
        self.pix = [int(x) for x in pix]
        n = P['nq'] + P['nout'] + P['nother']
        ids = P['idbase'] + g.choice(n + 90 if P['near_ids'] else 10**6,
                                     n + 60, replace=False)
        ids = [int(x) for x in ids]
        self.spare_ids = ids[n:]
        Q = []
        nights = {
            'sv': (20210101, 20210513), 'm2': (20210514, 20210731),
            'y1': (20210801, 20220731), 'y3': (20220801, 20230601),
        }
        surveys = list(P['surveys'])
        for i in range(n):
            if i < P['npix']:
                ip = i
            elif P['uneven'] and g.random() < 0.6:
                ip = 0
            else:
                ip = int(g.integers(0, P['npix']))
            hp = self.pix[ip]
            for _ in range(50):
                th, ph = healpy.pix2ang(nside, hp, nest=True, lonlat=True)
                ra = (th + g.normal() * 0.15 * 58.6 / nside / 2) % 360.
                dec = float(np.clip(
                    ph + g.normal() * 0.15 * 58.6 / nside / 2, -89, 89))
                if healpy.ang2pix(nside, ra, dec, lonlat=True,
                                  nest=True) == hp:
                    break
            else:
                ra, dec = th, ph
            q = dict(i=i, tid=ids[i], hpx=hp, ra=float(ra), dec=float(dec))
            q['z'] = float(g.uniform(P['zlo'], P['zhi']))
            q['survey'] = surveys[i % len(surveys)] if i < P['nq'] \
                else surveys[int(g.integers(0, len(surveys)))]
            if P['nq'] <= i < P['nq'] + P['nout']:
                q['z'] = float(g.choice([0.4, 6.5]) + 0.1 * g.random())
                q['role'] = 'zout'
            elif i >= P['nq'] + P['nout']:
                q['survey'] = 'special'
                q['role'] = 'other'
            else:
                q['role'] = 'good'
            if P['night_pix']:
                # nights by group, so that a process may hold only old ones
                c = P['night_pix'][ip % len(P['night_pix'])]
                q['night'] = int(c if isinstance(c, int)
                                 else c[int(g.integers(0, len(c)))])
                if q['role'] != 'good' and P.get('night_out'):
                    q['night'] = int(P['night_out'])
            elif isinstance(P['nights'], list):
                q['night'] = int(P['nights'][i % len(P['nights'])])
            else:
                a, b = nights[P['nights']]
                q['night'] = int(g.choice([a, b, (a + b) // 2]))
            q['tile'] = 1000 + ip * 7
            q['petal'] = int(g.integers(0, P['petals']))
            q['amp'] = float(np.exp(g.uniform(-0.7, 1.6)))
            q['slope'] = float(g.normal() * 0.8)
            q['quad'] = float(g.normal() * 1.0)
            q['lvar'] = float(g.uniform(-2.7, -0.6))
            q['in_file'] = True
            q['lowsnr'] = False
            Q.append(q)
        good = [q for q in Q if q['role'] == 'good']
        for q in good[:P['lowsnr']]:
            q['lvar'] = 2.2
            q['lowsnr'] = True
        for q in good[-P['negflux']:] if P['negflux'] else []:
            q['amp'] = -abs(q['amp'])
        gm = _rng('missing', P['wseed'])
        if P['missing']:
            for j in gm.choice(len(good), min(P['missing'], len(good) - 2),
                               replace=False):
                good[j]['in_file'] = False
        # groups (and so possibly processes) that lose every target
        for hp in gm.permutation(self.pix)[:P['missing_groups']]:
            L = [q for q in good if q['hpx'] == hp]
            left = [q for q in good if q['in_file'] and q['hpx'] != hp]
            if len(left) * 2 > len(good):
                for q in L:
                    q['in_file'] = False
        if P['fmt'] == 'tile':
            # in tile format a tile has one last night
            tn = {}
            for q in Q:
                q['night'] = tn.setdefault(q['tile'], q['night'])
            for q in good[:P['dup_tid_tiles']]:
                # the same target observed on a second tile
                q2 = dict(q)
                others = [t for t in tn if t != q['tile']]
                if not others:
                    continue
                q2['tile'] = others[0]
                q2['night'] = tn[others[0]]
                q2['i'] = len(Q)
                Q.append(q2)
        self.Q = Q
        gb = _rng('bal', P['wseed'])
        for q in Q:
            v = np.full((4, 3), 0.0)
            if P['bal'] and gb.random() < 0.5:
                k = int(gb.integers(1, 3))
                for a in (0, 2):
                    if a == 2 and gb.random() < 0.5:
                        continue
                    lo = gb.uniform(500, 15000, k)
                    v[a, :k] = lo
                    v[a + 1, :k] = lo + gb.uniform(400, 3000, k)
            elif P['bal']:
                v[:] = gb.choice([0.0, -1.0])
            q['bal'] = v

    # -- spectra ----------------------------------------------------------------
    def spectrum(self, q, expo=0):
        """{arm: (flux, ivar, mask)} as written to file (float32)."""
        P = self.P
        out = {}
        gd = _rng('delta', P['wseed'], q['tid'])
        allw = 3600. + P['dwave'] * np.arange(0, 2000)
        d = gd.normal(size=allw.size)
        d = np.convolve(d, np.ones(3) / 3, 'same') * 0.25
        for arm, w in self.waves.items():
            g = _rng('spec', P['wseed'], q['tid'], q['tile'], arm, expo)
            wrf = w / (1 + q['z'])
            cont = unabs_cont(wrf, q['amp'], q['slope'], q['quad'])
            idx = np.round((w - 3600.) / P['dwave']).astype(int)
            F = np.where(wrf < LYA, mean_flux(w) * (1 + d[idx]), 1.0)
            lv = q['lvar'] + 0.55 * g.normal(size=w.size)
            if expo:
                lv = lv + 0.3
            var = 10**lv * max(q['amp']**2, 0.05) * 0.4
            flux = cont * F + np.sqrt(var) * g.normal(size=w.size)
            ivar = 1 / var
            mask = np.zeros(w.size, dtype='i4')
            nb = P['badpix']
            if nb:
                r = g.random(w.size)
                mask[r < nb / 3] = int(2**g.integers(0, 20))
                ivar[(r > nb / 3) & (r < 2 * nb / 3)] = 0
                flux[(r > 0.9) & (r < 0.9 + nb / 9)] = np.nan
                ivar[(r > 0.8) & (r < 0.8 + nb / 9)] = -1.0
                ivar[(r > 0.7) & (r < 0.7 + nb / 9)] = np.nan
            if P['deadpix'] and g.random() < P['deadpix']:
                k0 = int(g.integers(0, max(1, w.size - 20)))
                ivar[k0:k0 + int(g.integers(20, 80))] = 0
            if P['zero_arm'] and q['i'] % max(1, P['zero_arm']) == 0 \
                    and arm == 'R':
                ivar[:] = 0
            if P['neg_arm'] and q['i'] % P['neg_arm'] == 0 and arm == 'R':
                # nothing but negative flux (an oversubtracted sky)
                flux = -.05 * np.abs(flux)
            for key, on in (('coadd_dead', not expo), ('expo_dead', expo)):
                # an arm without data in the coadd only, or in exposures only
                if P[key] and on and arm == P[key][0] \
                        and q['i'] % P[key][1] == 0:
                    ivar[:] = 0
            out[arm] = (flux.astype('f4'), ivar.astype('f4'), mask)
        return out

    def resolution(self, q, arm, expo=0):
        P = self.P
        nd = P['ndiag'][arm]
        w = self.waves[arm]
        g = _rng('reso', P['wseed'], q['tid'] if q else 0, arm, expo)
        sig = 0.9 + 0.3 * g.random() + 0.2 * (w - w[0]) / (w[-1] - w[0])
        k = np.arange(nd) - nd // 2
        R = np.exp(-k[:, None]**2 / 2 / sig[None, :]**2)
        R /= R.sum(0)
        return R.astype('f4')

    def nexpo(self, q):
        if not self.P['exposures']:
            return 0
        if self.P['expo_missing'] and q['i'] % self.P['expo_missing'] == 1:
            return 0
        g = _rng('nexp', self.P['wseed'], q['tid'])
        return int(g.integers(1, self.P['exposures'] + 1))

    def expo_info(self, q, e):
        g = _rng('expinfo', self.P['wseed'], q['tid'], e)
        return dict(
            EXPID=int(80000 + (q['i'] * 17 + e * 3) % 997),
            NIGHT=int(q['night'] - e), FIBER=int(g.integers(0, 5000)),
            PETAL_LOC=int(q['petal']), TILEID=int(2000 + e * 5 + q['i'] % 3))

    # -- files ----------------------------------------------------------------
    def catalog_array(self):
        P = self.P
        cols = P['colnames']
        ra = 'TARGET_RA' if cols in ('target', 'alt') else 'RA'
        dec = 'TARGET_DEC' if cols in ('target', 'alt') else 'DEC'
        night = {'default': 'LASTNIGHT', 'target': 'COADD_LASTNIGHT',
                 'alt': 'LAST_NIGHT'}[cols]
        dt = [('TARGETID', 'i8'), ('Z', 'f8'), (ra, 'f8'), (dec, 'f8')]
        if P['fmt'] != 'mock':
            dt += [('SURVEY', 'S8'), (night, 'i4')]
        if P['fmt'] == 'tile':
            dt += [('TILEID', 'i4'), ('PETAL_LOC', 'i2')]
        if P['has_hpx']:
            dt += [('HPXPIXEL', 'i8')]
        if P['bal']:
            for c in ('VMIN_CIV_450', 'VMAX_CIV_450', 'VMIN_CIV_2000',
                      'VMAX_CIV_2000'):
                dt += [(c, 'f4', (3,))]
        if P['cat_extra_cols']:
            dt += [('MAG_G', 'f4'), ('PROGRAM', 'S6')]
        cat = np.zeros(len(self.Q), dtype=dt)
        for j, q in enumerate(self.Q):
            r = cat[j]
            r['TARGETID'], r['Z'], r[ra], r[dec] = \
                q['tid'], q['z'], q['ra'], q['dec']
            if P['fmt'] != 'mock':
                r['SURVEY'] = q['survey']
                r[night] = q['night']
            if P['fmt'] == 'tile':
                r['TILEID'], r['PETAL_LOC'] = q['tile'], q['petal']
            if P['has_hpx']:
                r['HPXPIXEL'] = q['hpx']
            if P['bal']:
                r['VMIN_CIV_450'], r['VMAX_CIV_450'], r['VMIN_CIV_2000'], \
                    r['VMAX_CIV_2000'] = q['bal']
            if P['cat_extra_cols']:
                r['MAG_G'] = 20 + 0.01 * j
                r['PROGRAM'] = 'dark'
        if P['cat_shuffle']:
            cat = cat[_rng('cat', P['wseed']).permutation(cat.size)]
        return cat

    def write(self, root):
        P = self.P
        os.makedirs(root, exist_ok=True)
        self.root = root
        self.catfile = os.path.join(root, 'cat.fits')
        with fitsio.FITS(self.catfile, 'rw', clobber=True) as f:
            f.write(self.catalog_array(), extname=P['extname'] or None)
        self.datadir = os.path.join(root, 'data')
        os.makedirs(self.datadir, exist_ok=True)
        groups = {}
        for q in self.Q:
            groups.setdefault(self.fname(q), []).append(q)
        self.files = {}
        spare = list(self.spare_ids)
        for n, (fn, qs) in enumerate(sorted(groups.items())):
            path = os.path.join(self.datadir, fn)
            os.makedirs(os.path.dirname(path), exist_ok=True)
            rows = [q for q in qs if q['in_file']]
            for k in range(P['extra_rows']):
                if not spare:
                    break
                e = dict(qs[0])
                e['tid'] = spare.pop()
                e['amp'] = 7.7
                e['i'] = 5000 + len(spare)
                rows.append(e)
            if not rows:
                e = dict(qs[0])
                e['tid'] = P['idbase'] - 1 - n
                e['i'] = 7000 + n
                rows.append(e)
            g = _rng('rows', P['wseed'], fn)
            rows = [rows[j] for j in g.permutation(len(rows))]
            self._write_file(path, rows, 0)
            self.files[fn] = [q['tid'] for q in rows]
            if P['exposures'] and P['fmt'] == 'hpx':
                er = [(q, e + 1) for q in rows for e in range(self.nexpo(q))]
                if not er:
                    e = dict(rows[0])
                    e['tid'], e['i'] = P['idbase'] - 501 - n, 8000 + n
                    er = [(e, 1)]
                er = [er[j] for j in g.permutation(len(er))]
                path2 = path.replace('coadd-', 'spectra-')
                self._write_file(path2, er, 1)
            if P['fmt'] == 'mock':
                self._write_truth(path.replace('spectra-', 'truth-'), rows)
        return self

    def fname(self, q):
        P = self.P
        if P['fmt'] == 'mock':
            h = q['hpx']
            return f"{h//100}/{h}/spectra-16-{h}.fits"
        if P['fmt'] == 'tile':
            return (f"{q['tile']}/{q['night']}/coadd-{q['petal']}-"
                    f"{q['tile']}-thru{q['night']}.fits")
        h, s = q['hpx'], q['survey']
        return f"{s}/dark/{h//100}/{h}/coadd-{s}-dark-{h}.fits"

    def _write_file(self, path, rows, expo):
        P = self.P
        n = len(rows)
        if expo:
            fm = np.zeros(n, dtype=[
                ('TARGETID', 'i8'), ('PETAL_LOC', 'i2'), ('FIBER', 'i4'),
                ('NIGHT', 'i4'), ('EXPID', 'i4'), ('TILEID', 'i4')])
            for j, (q, e) in enumerate(rows):
                inf = self.expo_info(q, e)
                fm[j]['TARGETID'] = q['tid']
                for c, v in inf.items():
                    fm[j][c] = v
        else:
            fm = np.zeros(n, dtype=[('TARGETID', 'i8'), ('FLUX_G', 'f4')])
            for j, q in enumerate(rows):
                fm[j]['TARGETID'] = q['tid']
        specs = [self.spectrum(*r) if expo else self.spectrum(r)
                 for r in rows]
        with fitsio.FITS(path, 'rw', clobber=True) as f:
            f.write(fm, extname='FIBERMAP')
            for arm in self.waves:
                f.write(self.waves[arm], extname=f'{arm}_WAVELENGTH')
                for c, name in enumerate(('FLUX', 'IVAR', 'MASK')):
                    f.write(np.array([s[arm][c] for s in specs]),
                            extname=f'{arm}_{name}')
                if P['reso'] and P['fmt'] != 'mock':
                    R = np.array([
                        self.resolution(r[0], arm, r[1]) if expo
                        else self.resolution(r, arm) for r in rows])
                    f.write(R, extname=f'{arm}_RESOLUTION')

    TW = (3500., 6200., 6.0)

    def true_cont(self, q):
        w = np.arange(*self.TW)
        return unabs_cont(
            w / (1 + q['z']), q['amp'], q['slope'], q['quad'])

    def _write_truth(self, path, rows):
        w = np.arange(*self.TW)
        g = _rng('truthrows', self.P['wseed'], os.path.basename(path))
        rows = [rows[j] for j in g.permutation(len(rows))]
        t = np.zeros(len(rows), dtype=[
            ('TARGETID', 'i8'), ('TRUE_CONT', 'f4', (w.size,))])
        for j, q in enumerate(rows):
            t[j]['TARGETID'] = q['tid']
            t[j]['TRUE_CONT'] = self.true_cont(q)
        with fitsio.FITS(path, 'rw', clobber=True) as f:
            f.write(t, extname='TRUE_CONT', header={
                'WMIN': w[0], 'WMAX': w[-1], 'DWAVE': self.TW[2]})
            if self.P['reso']:
                for arm in self.waves:
                    f.write(self.resolution(None, arm).astype('f8'),
                            extname=f'{arm}_RESOLUTION')

    # -- auxiliary inputs -----------------------------------------------------
    def write_sky_mask(self, wide=False):
        P = self.P
        g = _rng('skymask', P['wseed'])
        rows = []
        for _ in range(3):
            a = g.uniform(P['wave1'], P['wave2'])
            rows.append(('line', a, a + g.uniform(3, 45), 'OBS'))
        for _ in range(2):
            a = g.uniform(1055, 1170)
            rows.append(('rf', a, a + g.uniform(1, 5), 'RF'))
        if wide:
            # whole arms of some quasars
            e = sorted([w[0] for w in self.waves.values()]
                       + [w[-1] for w in self.waves.values()])
            e = [x for x in e if P['wave1'] < x < P['wave2']]
            a = float(g.choice(e)) if e and g.random() < .7 else g.uniform(
                P['wave1'], P['wave2'])
            w = g.uniform(60, .35 * (P['wave2'] - P['wave1']))
            rows.append(('wide', a - w * g.choice([1., .5, .03]), 0, 'OBS'))
            rows[-1] = ('wide', rows[-1][1], rows[-1][1] + w, 'OBS')
        self.sky_rows = [(t, round(a, 3), round(b, 3), f)
                         for t, a, b, f in rows]
        path = os.path.join(self.root, 'sky.txt')
        with open(path, 'w') as f:
            f.write("# type wave_min wave_max frame\n")
            for r in self.sky_rows:
                f.write(f"{r[0]} {r[1]} {r[2]} {r[3]}\n")
        return path

    def write_dla(self, zcol='Z_DLA'):
        g = _rng('dla', self.P['wseed'])
        rows = []
        for q in self.Q:
            if g.random() < 0.45:
                for _ in range(int(g.integers(1, 3))):
                    lam = g.uniform(1060, 1170) * (1 + q['z'])
                    rows.append((q['tid'], lam / LYA - 1,
                                 g.uniform(20.1, 20.9)))
        rows.append((self.P['idbase'] - 5, 2.3, 20.5))
        rows = [rows[j] for j in g.permutation(len(rows))]
        self.dlas = rows
        cat = np.zeros(len(rows), dtype=[
            ('TARGETID', 'i8'), (zcol, 'f8'), ('NHI', 'f8'), ('SNR', 'f4')])
        for j, r in enumerate(rows):
            cat[j]['TARGETID'], cat[j][zcol], cat[j]['NHI'] = r
        path = os.path.join(self.root, 'dla.fits')
        with fitsio.FITS(path, 'rw', clobber=True) as f:
            f.write(cat, extname='DLACAT')
        return path

    def write_calib(self):
        P = self.P
        g = _rng('calib', P['wseed'])
        nw = int(round((P['wave2'] - P['wave1']) / 120.))
        e = np.linspace(P['wave1'], P['wave2'], nw + 1)
        w = (e[1:] + e[:-1]) / 2
        eta = 1 + 0.1 * g.normal(size=nw)
        vl = 0.03 + 0.02 * g.random(nw)
        ns = int(round((P['wave2'] - P['wave1']) / 8.))
        e = np.linspace(P['wave1'], P['wave2'], ns + 1)
        ws = (e[1:] + e[:-1]) / 2
        sf = 1 + 0.05 * g.normal(size=ns)
        if ns > 6:
            sf[ns // 3] = 0
            eta[nw // 2] = 0
        path = os.path.join(self.root, 'calib.fits')
        with fitsio.FITS(path, 'rw', clobber=True) as f:
            f.write([w, vl, eta], names=['lambda', 'var_lss', 'eta'],
                    extname='VAR_FUNC')
            f.write([ws, sf], names=['lambda', 'stacked_flux'],
                    extname='STACKED_FLUX')
        self.calib = dict(w=w, eta=np.where(eta == 0, 1, eta), vl=vl, ws=ws,
                          sf=np.where(sf == 0, 1, sf))
        return path

    def write_fiducial(self):
        P = self.P
        w = np.arange(3500., 6200., 10.)
        mf = mean_flux(w)
        vl = 0.02 + 0.03 * (w / 5000.)**3
        path = os.path.join(self.root, 'fid.fits')
        with fitsio.FITS(path, 'rw', clobber=True) as f:
            f.write([w, mf, vl], names=['LAMBDA', 'MEANFLUX', 'VAR_LSS'],
                    extname='STATS')
        self.fid = dict(w=w, mf=mf, vl=vl)
        return path

    IC = (1000., 1300., 2.0)

    def _bad_cont(self, fn, tids, rows, kind):
        if kind < 3:
            with open(fn, 'wb') as f:
                f.write([b'', b'not a file\n' * 300,
                         b'SIMPLE  =   T'][kind])
            return
        col = 'TARGETID' if kind != 3 else 'TARGET_ID'
        fm = np.zeros(len(tids), dtype=[(col, 'i8')])
        fm[col] = tids
        h = {'WAVE1': self.IC[0], 'DWAVE': self.IC[2]}
        with fitsio.FITS(fn, 'rw', clobber=True) as f:
            if kind == 5:
                # no data
                f.create_image_hdu(dims=None, extname='CONTINUA')
            if kind != 4:
                f.write(fm, extname='FIBERMAP')
            if kind == 5:
                return
            if kind == 6:
                f.write(rows, extname='CONT', header=h)
            else:
                f.write(rows, extname='CONTINUA', header=h)

    def write_input_cont(self, drop_targets=0, drop_files=0, neg=0,
                         garbage=0):
        g = _rng('incont', self.P['wseed'])
        d = os.path.join(self.root, 'incont')
        os.makedirs(d, exist_ok=True)
        wrf = np.arange(*self.IC)
        groups = {}
        for q in self.Q:
            pn = int(healpy.ang2pix(8, q['ra'], q['dec'], lonlat=True,
                                    nest=True))
            q['pix8'] = pn
            groups.setdefault(pn, {})[q['tid']] = q
        self.incont = {}
        good = [q['tid'] for q in self.Q if q['role'] == 'good']
        dropped = set(int(x) for x in g.choice(
            good, min(drop_targets, len(good) - 2), replace=False)) \
            if drop_targets else set()
        negs = set(good[:abs(neg)]) if neg else set()
        pixs = sorted(groups)
        self.incont_missing = set(pixs[:drop_files]) \
            if drop_files < len(pixs) else set()
        bad = [p for p in pixs if p not in self.incont_missing][:garbage]
        self.incont_neg = negs if neg < 0 else set()
        self.incont_dip = negs if neg > 0 else set()
        for pn in pixs:
            qs = [q for t, q in sorted(groups[pn].items())
                  if t not in dropped]
            qs = [qs[j] for j in g.permutation(len(qs))]
            rows = []
            for q in qs:
                c = unabs_cont(wrf, q['amp'], q['slope'], q['quad'])
                if q['tid'] in negs:
                    # negative neg: not even partly positive
                    # positive: negative in part of the forest only
                    if neg < 0:
                        c = -np.abs(c) - .1
                    elif q['i'] % 3 == 0:
                        c = c - 2 * abs(q['amp'])
                    else:
                        x = (wrf - 1050 - 10 * (q['tid'] % 13)) \
                            / (2., 5., 20.)[q['tid'] % 3]
                        c = c * (1 - 2.2 * np.exp(-x**2 / 2))
                rows.append(c.astype('f4'))
            extra = (self.P['idbase'] - 77 - pn, np.full(wrf.size, 3., 'f4'))
            tids = [q['tid'] for q in qs] + [extra[0]]
            rows = rows + [extra[1]]
            fn = f"input-continuum-8-{pn}.fits"
            if pn in self.incont_missing:
                continue
            if pn in bad and len(self.incont_missing) < len(pixs) - 1:
                self.incont_missing.add(pn)
                self._bad_cont(os.path.join(d, fn), tids, np.array(rows),
                               int(g.integers(7)))
                continue
            for t, c in zip(tids, rows):
                self.incont[t] = c.astype('f8')
            fm = np.zeros(len(tids), dtype=[('TARGETID', 'i8')])
            fm['TARGETID'] = tids
            with fitsio.FITS(os.path.join(d, fn), 'rw', clobber=True) as f:
                f.write(fm, extname='FIBERMAP')
                f.write(np.array(rows), extname='CONTINUA', header={
                    'WAVE1': wrf[0], 'DWAVE': self.IC[2]})
        return d
