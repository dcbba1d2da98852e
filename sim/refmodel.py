"""Independent reference model: from the synthetic survey and the options to
what each spectrum must look like.  Written from the documentation; works on
the integer wavelength grid lambda = 3600 + dwave * i, in double precision.
"""
import numpy as np
from scipy.interpolate import CubicSpline

from .world import LYA

C_KMS = 299792.458
BAL_LINES = [1549, 1403, 1394, 1240.81, 1216.1, 1175, 1128, 1117, 1074, 1062,
             1031, 1037, 1039, 1025.7, 972.5, 977.0, 989.9, 949.7]


def lin_interp(x, x0, dx, f):
    t = (np.asarray(x) - x0) / dx
    i = np.clip(np.floor(t).astype(int), 0, len(f) - 2)
    return f[i] + (t - i) * (f[i + 1] - f[i])


def cub_interp(x, x0, dx, f):
    xs = x0 + dx * np.arange(len(f))
    return CubicSpline(xs, f, bc_type='not-a-knot')(x)


def smooth_ivar(ivar, sigma_pix, esigma=3.5):
    good = ivar > 0
    err = np.zeros(ivar.size)
    err[good] = ivar[good]**-0.5
    med = np.median(err[good])
    err[~good] = med
    mad = 1.4826 * np.median(np.abs(err[good] - med))
    hi = err - med > esigma * mad
    keep = err[hi].copy()
    err[hi] = med
    pad = max(1, int(3 * sigma_pix))
    n = err.size + 2 * pad
    e = np.concatenate([np.full(pad, err[0]), err, np.full(pad, err[-1])])
    k = np.fft.rfftfreq(n)
    s = np.fft.irfft(np.fft.rfft(e) * np.exp(-0.5 * (k * sigma_pix)**2), n=n)
    s = s[pad:-pad]
    s[hi] = keep
    out = s**-2
    out[~good] = 0
    return out


def _voigt_tau(wave, lam, logn, b, f12, a12):
    qe, me, c = 4.803204e-10, 9.109384e-28, C_KMS * 1e5
    a = np.pi * qe**2 / me / c * f12
    gamma = a12 * lam * 1e-8 / 4 / np.pi / c
    sig = b / C_KMS
    u = (wave / lam - 1) / sig
    P = u**2 + 1e-12
    Q = 1.5 / P
    R = np.exp(-P)
    H = R - (gamma / sig) / P / 1.77245385091 * (
        R**2 * (4 * P**2 + 7 * P + 4 + Q) - Q - 1)
    return H * a * 10**(logn - 13) * (lam / b) / 1.77245385091


def dla_transmission(wave, dlas):
    t = np.ones(wave.size)
    for z, n in dlas:
        w = wave / (1 + z)
        tau = _voigt_tau(w, 1215.67, n, 10., 4.1641e-01, 6.2648e+08) \
            + _voigt_tau(w, 1025.7220, n, 10., 7.9142e-02, 1.6725e+08)
        t *= np.exp(-tau)
    return t


class Arm:
    """One arm of a forest: pixels i0 .. i0+n-1 of the common grid."""
    __slots__ = ('i0', 'flux', 'ivar', 'reso', 'soft')

    def __init__(self, i0, flux, ivar, reso=None):
        self.i0 = i0
        self.flux = np.array(flux, dtype='f8')
        self.ivar = np.array(ivar, dtype='f8')
        self.reso = reso
        # pixels whose masked/unmasked state is decided by rounding
        self.soft = np.zeros(self.flux.size, dtype=bool)

    @property
    def n(self):
        return self.flux.size

    def idx(self):
        return self.i0 + np.arange(self.n)

    def wave(self, dw):
        return 3600. + dw * self.idx()

    def nreal(self):
        return int((self.ivar > 0).sum())


class RefSpec:
    def __init__(self, q, expo):
        self.q = q
        self.expo = expo          # 0: coadd
        self.arms = {}
        self.snr = {}
        self.rsnr = 0.
        self.soft = []            # reasons why its selection is ambiguous

    @property
    def key(self):
        return (self.q['tid'], self.q['tile'], self.expo)

    def nreal(self):
        return sum(a.nreal() for a in self.arms.values())


def near(a, b, tol=1e-4):
    return abs(a - b) <= tol * max(1e-3, abs(a), abs(b))


class Ref:
    def __init__(self, W, o):
        self.W, self.o = W, o
        self.dw = W.P['dwave']

    # ---- selection of the catalog ------------------------------------------
    def zrange(self):
        o = self.o
        tol = (o['forest_w2'] - o['forest_w1']) * o['skip']
        return (o['wave1'] / (o['forest_w2'] - tol) - 1,
                o['wave2'] / (o['forest_w1'] + tol) - 1)

    def selected(self):
        z1, z2 = self.zrange()
        out = []
        for q in self.W.Q:
            if not z1 <= q['z'] <= z2:
                continue
            if self.W.P['fmt'] != 'mock' and self.o['keep_surveys'] \
                    and q['survey'] not in self.o['keep_surveys']:
                continue
            out.append(q)
        return out

    def groups(self):
        """group key -> list of quasars handed out together."""
        g = {}
        for q in self.selected():
            k = q['tile'] if self.W.P['fmt'] == 'tile' else q['hpx']
            g.setdefault(k, []).append(q)
        return g

    # ---- one spectrum --------------------------------------------------------
    def _raw(self, q, e):
        W, o = self.W, self.o
        s = RefSpec(q, e)
        data = W.spectrum(q, e)
        z1 = 1 + q['z']
        l1 = max(o['wave1'], z1 * o['forest_w1'])
        l2 = min(o['wave2'], z1 * o['forest_w2'])
        num = den = 0.
        for arm in sorted(set(o['arms'])):
            flux, ivar, mask = data[arm]
            flux = flux.astype('f8')
            ivar = ivar.astype('f8')
            bad = (mask != 0) | np.isnan(flux) | np.isnan(ivar) | (ivar < 0)
            flux[bad] = 0
            ivar[bad] = 0
            w = W.waves[arm]
            red = w >= z1 * LYA
            num += np.sum(flux[red] * np.sqrt(ivar[red]))
            den += np.sum(ivar[red] > 0)
            sel = (w >= l1) & (w < l2)
            if not np.any(ivar[sel] > 0):
                continue
            i0 = int(round((w[sel][0] - 3600.) / self.dw))
            reso = None
            if not o['skip_resomat'] and W.P['reso']:
                if W.P['fmt'] == 'mock':
                    reso = W.resolution(None, arm)[:, sel].astype('f8')
                else:
                    reso = W.resolution(q, arm, e)[:, sel].astype('f8')
            s.arms[arm] = Arm(i0, flux[sel], ivar[sel], reso)
        s.rsnr = num / (den + 1e-6)
        for arm, a in s.arms.items():
            s.snr[arm] = np.sum(np.sqrt(a.ivar) * a.flux) / a.nreal()
        return s

    def coadd(self, s, weights=None, conts=None):
        """Coadd the arms of s with given weights (default: ivar)."""
        lo = min(a.i0 for a in s.arms.values())
        hi = max(a.i0 + a.n for a in s.arms.values())
        n = hi - lo
        fl, iv, nm = np.zeros(n), np.zeros(n), np.zeros(n)
        soft = np.zeros(n, dtype=bool)
        cont = np.full(n, np.nan)
        for arm, a in s.arms.items():
            sl = slice(a.i0 - lo, a.i0 - lo + a.n)
            wt = a.ivar if weights is None else weights[arm]
            v = np.where(a.ivar > 0, 1 / np.where(a.ivar > 0, a.ivar, 1), 0)
            fl[sl] += wt * a.flux
            iv[sl] += wt**2 * v
            nm[sl] += wt
            soft[sl] |= a.soft
            if conts is not None:
                cont[sl] = conts[arm]
        g = nm > 0
        fl[g] /= nm[g]
        iv[g] = nm[g]**2 / iv[g]
        reso = None
        if any(a.reso is not None for a in s.arms.values()):
            nd = max(a.reso.shape[0] for a in s.arms.values())
            R, rn = np.zeros((nd, n)), np.zeros(n)
            for arm, a in s.arms.items():
                sl = slice(a.i0 - lo, a.i0 - lo + a.n)
                wt = np.array(a.ivar if weights is None else weights[arm])
                wt[wt == 0] = 1e-8
                d = (nd - a.reso.shape[0]) // 2
                R[d:nd - d, sl] += wt * a.reso
                rn[sl] += wt
            # no arm covers gaps
            reso = R / np.where(rn > 0, rn, 1)
        b = Arm(lo, fl, iv, reso)
        b.soft = soft
        s.arms = {'brz': b}
        nr = b.nreal()
        s.snr = {'brz': np.sum(np.sqrt(iv) * fl) / nr if nr else np.nan}
        return cont

    def _calibrate(self, s):
        o, W = self.o, self.W
        for a in s.arms.values():
            w = a.wave(self.dw)
            if o['noise_cal']:
                c = W.calib
                a.ivar /= cub_interp(w, c['w'][0], c['w'][1] - c['w'][0],
                                     c['eta'])
            if o['flux_cal']:
                c = W.calib
                f = lin_interp(w, c['ws'][0], c['ws'][1] - c['ws'][0],
                               c['sf'])
                a.flux /= f
                a.ivar *= f**2

    def _mask(self, s):
        o, W, q = self.o, self.W, s.q
        any_mask = False
        for a in s.arms.values():
            w = a.wave(self.dw)
            m = np.zeros(a.n, dtype=bool)
            edge = np.zeros(a.n, dtype=bool)

            def rng(x, lo, hi):
                nonlocal m, edge
                m |= (x >= lo) & (x < hi)
                edge |= (np.abs(x - lo) < 1e-6) | (np.abs(x - hi) < 1e-6)
            if o['sky']:
                any_mask = True
                for _, lo, hi, fr in W.sky_rows:
                    rng(w if fr == 'OBS' else w / (1 + q['z']), lo, hi)
            if o['bal']:
                any_mask = True
                v = q['bal'].astype('f4').astype('f8')
                for lo_v, hi_v in ((v[0], v[1]), (v[2], v[3])):
                    for x, y in zip(lo_v, hi_v):
                        if x <= 0 or y <= 0:
                            continue
                        for line in BAL_LINES:
                            p1 = line * (1 + q['z']) * (1 - y / C_KMS)
                            p2 = line * (1 + q['z']) * (1 - x / C_KMS)
                            rng(w, min(p1, p2), max(p1, p2))
                            edge |= np.abs(w - p1) < 2e-3
                            edge |= np.abs(w - p2) < 2e-3
            a.flux[m] = 0
            a.ivar[m] = 0
            if o['dla']:
                any_mask = True
                dl = [(z, n) for t, z, n in W.dlas if t == q['tid']]
                if dl:
                    t = dla_transmission(w, dl)
                    t[w >= (1 + q['z']) * LYA] = 1
                    k = t < 0.8
                    edge |= np.abs(t - 0.8) < 1e-6
                    a.ivar[k] = 0
                    a.flux[k] = 0
                    t[k] = 1
                    a.flux /= t
                    a.ivar *= t**2
            a.soft |= edge
        if any_mask:
            for arm in [x for x, a in s.arms.items() if a.nreal() == 0]:
                del s.arms[arm]

    def prefit(self, exposures, coadd_before, quasars=None):
        """Spectra entering the continuum fit: {key: RefSpec}.

        Spectra whose selection hinges on rounding carry reasons in .soft.
        """
        o = self.o
        out = {}
        for q in (self.selected() if quasars is None else quasars):
            if not q['in_file']:
                continue
            es = range(1, self.W.nexpo(q) + 1) if exposures else [0]
            for e in es:
                s = self._raw(q, e)
                if not s.arms:
                    continue
                if near(s.rsnr, o['min_rsnr']):
                    s.soft.append('rsnr')
                elif s.rsnr < o['min_rsnr']:
                    continue
                if coadd_before:
                    self.coadd(s)
                self._calibrate(s)
                self._mask(s)
                npx = (1 + q['z']) * (o['forest_w2'] - o['forest_w1']) \
                    / self.dw
                nsoft = sum(int(a.soft.sum()) for a in s.arms.values())
                if o['skip']:
                    if nsoft and abs(s.nreal() - o['skip'] * npx) <= nsoft:
                        s.soft.append('length')
                    elif not s.nreal() > o['skip'] * npx:
                        continue
                a = sum(v**3 for v in s.snr.values())
                b = sum(v**2 for v in s.snr.values()) + 1e-8
                eff = a / b
                if near(eff, o['min_forestsnr']):
                    s.soft.append('snr')
                elif not eff >= o['min_forestsnr']:
                    continue
                out[s.key] = s
        return out

    def short_arms(self, s):
        """(definitely dropped, undecided) arms at saving time."""
        o = self.o
        npx = int(o['skip'] * (1 + s.q['z'])
                  * (o['forest_w2'] - o['forest_w1']) / self.dw) + 1
        d, u = set(), set()
        for arm, a in s.arms.items():
            ns = int(a.soft.sum())
            if ns and abs(a.nreal() - npx) <= ns:
                u.add(arm)
            elif a.nreal() < npx:
                d.add(arm)
        return d, u

    # ---- blinding ------------------------------------------------------------
    def blinding(self):
        if self.W.P['fmt'] == 'mock' or self.o['forest_w1'] > LYA:
            return 'none'
        n = max(q['night'] for q in self.selected())
        if n < 20210514:
            return 'none'
        if n < 20210801:
            return 'desi_m2'
        if n < 20220801:
            return 'desi_y1'
        return 'desi_y3'

    # ---- continuum -------------------------------------------------------------
    def meanflux(self, w):
        o = self.o
        if not (o['fid_meanflux'] or o['model'] == 'true'):
            return np.ones(np.size(w))
        f = self.W.fid
        return lin_interp(w, f['w'][0], f['w'][1] - f['w'][0], f['mf'])

    def uses_fid_varlss(self):
        return self.o['fid_varlss'] or self.o['model'] == 'true'

    def fid_varlss(self, w):
        f = self.W.fid
        return lin_interp(w, f['w'][0], f['w'][1] - f['w'][0], f['vl'])

    def rfgrid(self):
        o = self.o
        nb = int(round((o['forest_w2'] - o['forest_w1']) / o['rfdwave']))
        e = np.linspace(o['forest_w1'], o['forest_w2'], nb + 1)
        return (e[1:] + e[:-1]) / 2

    def fixed_continuum(self, q, w):
        """True or input continuum times mean flux; None if unavailable."""
        W = self.W
        if self.o['model'] == 'true':
            c = cub_interp(w, W.TW[0], W.TW[2],
                           W.true_cont(q).astype('f4').astype('f8'))
        else:
            t = W.incont.get(q['tid'])
            if t is None:
                return None
            c = cub_interp(w / (1 + q['z']), W.IC[0], W.IC[2], t)
        return c
