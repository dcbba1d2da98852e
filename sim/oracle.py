"""Checks of one successful fit run against the reference model.

Every method returns a list of (class, message).  Spectra or pixels whose
treatment hinges on floating-point rounding ("soft") are not judged.
"""
import re

import numpy as np
from scipy.optimize import minimize

from .outputs import FitOut
from .refmodel import Ref, cub_interp, lin_interp, smooth_ivar, Arm

RT = 3e-5          # float32 inputs: relative tolerance on data


def close(a, b, rt=RT, at=0.0):
    return np.abs(a - b) <= at + rt * np.maximum(np.abs(a), np.abs(b))


class St:
    """Expected state of one fitted spectrum."""

    def __init__(self, spec, row):
        self.spec, self.row = spec, row
        self.valid = bool(row['CONT_valid'])
        self.soft = bool(spec.soft) or any(
            a.soft.any() for a in spec.arms.values())
        self.arms0 = None     # state during the last fit iteration
        self.final = None     # {arm: (Arm, cont, weight)} when saved


class FitOracle:
    def __init__(self, W, o, outdir, n, out=None):
        self.W, self.o, self.n = W, o, n
        self.ref = Ref(W, o)
        self.out = out or FitOut(outdir)
        self.dw = W.P['dwave']
        self.problems = []
        self.pre = self.ref.prefit(o['exposures'] == 'before',
                                   o['coadd_arms'] == 'before')
        self._states = None
        self.notes = {}

    def note(self, k, n=1):
        self.notes[k] = self.notes.get(k, 0) + n

    # ---- chi2 catalog rows <-> reference spectra ---------------------------
    def match(self):
        """Pairs (RefSpec, row); records problems of class 'chi2-rows'."""
        if self._states is not None:
            return self._states
        self._states = []
        self.unjudged = set()
        self.row_problems = []
        cat = self.out.chi2
        if cat is None:
            self.row_problems.append(
                ('chi2-missing', 'no continuum_chi2_catalog.fits'))
            return self._states
        rows, specs = {}, {}
        for r in cat:
            rows.setdefault(int(r['TARGETID']), []).append(r)
        for s in self.pre.values():
            specs.setdefault(s.q['tid'], []).append(s)
        for tid in sorted(set(rows) | set(specs)):
            rr = rows.get(tid, [])
            ss = specs.get(tid, [])
            nsoft = sum(1 for s in ss if s.soft)
            if not len(ss) - nsoft <= len(rr) <= len(ss):
                self.row_problems.append((
                    'chi2-rows',
                    f"target {tid} has {len(rr)} rows in the chi2 catalog, "
                    f"expected {len(ss)}" + (
                        f" (up to {nsoft} undecided)" if nsoft else "")))
                continue
            if len(rr) != len(ss):
                self.note('soft-selection')
                self.unjudged.add(tid)
                continue
            rr = sorted(rr, key=lambda r: float(r['RSNR']))
            ss = sorted(ss, key=lambda s: s.rsnr)
            v = [float(r['RSNR']) for r in rr]
            if any(close(a, b, 1e-3, 1e-4) for a, b in zip(v, v[1:])):
                # several spectra of one target that cannot be told apart
                self.note('ambiguous-rows')
                self.unjudged.add(tid)
                continue
            for s, r in zip(ss, rr):
                self._states.append(St(s, r))
        return self._states

    def rows(self):
        """C05: one row per spectrum that entered the fit; its contents."""
        st = self.match()
        out = list(self.row_problems)
        o = self.o
        rank_of = {}
        for s in st:
            q, r = s.spec.q, s.row
            t = q['tid']
            if not close(float(r['Z']), q['z'], 1e-6):
                out.append(('chi2-row', f"{t}: Z {r['Z']} != {q['z']}"))
            if int(r['HPXPIXEL']) != q['hpx']:
                out.append(('chi2-row',
                            f"{t}: HPXPIXEL {r['HPXPIXEL']} != {q['hpx']}"))
            if not close(float(r['RSNR']), s.spec.rsnr, 1e-4, 1e-5):
                out.append(('chi2-row',
                            f"{t}: RSNR {r['RSNR']} != {s.spec.rsnr}"))
            k = int(r['MPI_RANK'])
            if not 0 <= k < self.n:
                out.append(('chi2-rank', f"{t}: MPI_RANK {k} of {self.n}"))
            g = q['tile'] if self.W.P['fmt'] == 'tile' else q['hpx']
            rank_of.setdefault(g, set()).add(k)
        for g, ks in rank_of.items():
            if len(ks) > 1:
                out.append(('chi2-rank',
                            f"group {g} is fitted on ranks {sorted(ks)}"))
        return out

    # ---- recorded functions ------------------------------------------------
    def niter_done(self):
        k = 0
        while f'CONT-{k + 1}' in self.out.attrd:
            k += 1
        return k

    def _vf(self, name, w):
        t = self.out.attrd.get(name)
        if t is None:
            return None, None
        x0, dx = t['lambda'][0], t['lambda'][1] - t['lambda'][0]
        return (cub_interp(w, x0, dx, t['var_lss']),
                cub_interp(w, x0, dx, t['eta']))

    def funcs(self, which, w):
        """(var_lss, eta) used in weights: 'last' iteration or 'final'."""
        if self.ref.uses_fid_varlss():
            return self.ref.fid_varlss(w), np.ones(np.size(w))
        name = f'VAR_FUNC-{self.niter_done()}' if which == 'last' \
            else 'VAR_FUNC'
        return self._vf(name, w)

    def stacked(self, w):
        t = self.out.attrd['STACKED_FLUX']
        f = np.where(t['stacked_flux'] == 0, 1., t['stacked_flux'])
        return lin_interp(w, t['lambda'][0],
                          t['lambda'][1] - t['lambda'][0], f)

    # ---- expected continuum --------------------------------------------------
    def model_cont(self, s, w):
        """Continuum of the last fit (before normalisation) at w."""
        o, q = self.o, s.spec.q
        if o['model'] == 'picca':
            t = self.out.attrd[f'CONT-{self.niter_done()}']
            x = np.array(s.row['CONT_x'], dtype='f8').ravel()
            rf = w / (1 + q['z'])
            g = t['lambda_rf']
            m = cub_interp(rf, g[0], g[1] - g[0], t['mean_cont'])
            u = 2 * np.log(rf / g[0]) / np.log(g[-1] / g[0]) - 1
            p = sum(c * u**i for i, c in enumerate(x))
            scale = sum(abs(c * u**i) for i, c in enumerate(x))
            f = self.ref.meanflux(w)
            return m * p * f, np.abs(m) * scale * f
        c = self.ref.fixed_continuum(q, w)
        if c is None:
            return None, None
        c = c * self.ref.meanflux(w)
        return c, np.abs(c)

    def sm(self, ivar):
        """Smoothed inverse variance and whether rounding may flip it."""
        sc = self.o['smoothing_scale']
        if sc <= 0:
            return ivar.copy(), False
        g = ivar > 0
        if not g.any():
            return ivar.copy(), True
        e = ivar[g]**-0.5
        med = np.median(e)
        mad = 1.4826 * np.median(np.abs(e - med))
        near = np.any(np.abs((e - med) - 3.5 * mad)
                      < 2e-5 * (med + 3.5 * mad))
        return smooth_ivar(ivar, sc / self.dw), bool(near)

    def _ill(self, s, wt):
        """A tiny survey can fit a negative var_lss; not judged further."""
        if np.any(wt < 0):
            self.note('negative-weights')
            s.soft = s.wsoft = True

    def build(self, s):
        """Fill s.arms0 and s.final from reference data and recorded
        functions.  Returns False if it cannot be judged."""
        if s.arms0 is not None:
            return s.final is not None
        o = self.o
        s.arms0, s.final = {}, None
        s.wsoft = s.soft
        for arm, a in s.spec.arms.items():
            w = a.wave(self.dw)
            c, _ = self.model_cont(s, w)
            if c is None:
                return False
            iv, near = self.sm(a.ivar)
            s.wsoft |= near
            vl, eta = self.funcs('last', w)
            wt = iv / (eta + iv * vl * c**2)
            self._ill(s, wt)
            s.arms0[arm] = (a, c, wt)
        fin = {}
        for arm, (a, c, wt) in s.arms0.items():
            w = a.wave(self.dw)
            b = Arm(a.i0, a.flux, a.ivar, a.reso)
            b.soft = a.soft
            c = c.copy()
            if o['normalize']:
                c = c * self.stacked(w)
            if o['eta_calib_ivar'] and not self.ref.uses_fid_varlss():
                _, eta = self.funcs('final', w)
                if np.any(eta < 0.02):
                    s.wsoft = s.soft = True
                b.ivar = b.ivar / eta
            if o['additive'] and o['noise_cal']:
                cal = self.W.calib
                v = cub_interp(w, cal['w'][0], cal['w'][1] - cal['w'][0],
                               cal['vl'])
                b.ivar = b.ivar / (1 + b.ivar * v * c**2)
                b.ivar[b.ivar < 0] = 0
                iv, near = self.sm(b.ivar)
                s.wsoft |= near
                vl, eta = self.funcs('final', w)
                wt = iv / (eta + iv * vl * c**2)
                self._ill(s, wt)
            fin[arm] = (b, c, wt)
        s.before_coadd = fin
        s.snr = dict(s.spec.snr)
        if o['coadd_arms'] == 'after':
            from .refmodel import RefSpec
            t = RefSpec(s.spec.q, s.spec.expo)
            t.arms = {k: v[0] for k, v in fin.items()}
            if not t.arms:
                return False
            cc = self.ref.coadd(t, {k: v[2] for k, v in fin.items()},
                                {k: v[1] for k, v in fin.items()})
            b = t.arms['brz']
            iv, near = self.sm(b.ivar)
            s.wsoft |= near
            w = b.wave(self.dw)
            vl, eta = self.funcs('final', w)
            wt = iv / (eta + iv * vl * cc**2)
            self._ill(s, wt)
            fin = {'brz': (b, cc, wt)}
            s.snr = t.snr
        s.final = fin
        return True

    # ---- deltas <-> spectra --------------------------------------------------
    def expected_arms(self, s, arms):
        """(must be saved, may be saved) arms."""
        from .refmodel import RefSpec
        t = RefSpec(s.q, s.expo)
        t.arms = arms
        d, u = self.ref.short_arms(t)
        return set(arms) - d - u, set(arms) - d

    def delta_key(self, d):
        return (d.tid, d.tile if self.W.P['fmt'] == 'tile' else None,
                d.expid)

    def spec_key(self, s):
        e = None
        if s.expo:
            e = self.W.expo_info(s.q, s.expo)['EXPID']
        return (s.q['tid'], s.q['tile'] if self.W.P['fmt'] == 'tile'
                else None, e)

    def saved(self):
        """C05/C14: exactly the valid spectra, each arm once, right file."""
        out = []
        o = self.o
        st = self.match()
        have = {}
        for f, e in self.out.unreadable:
            out.append(('delta-unreadable', f"{f}: {e}"))
        for d in self.out.deltas:
            if d.bad:
                out.append(('delta-bad', f"{d.file}[{d.ext}]: {d.bad}"))
            name = [str(d.tid), d.arm] + (
                [] if d.expid is None else [str(d.expid)])
            if re.split('[-_]', d.ext) != name:
                out.append(('delta-name', f"{d.file}[{d.ext}] holds target "
                            f"{d.tid} arm {d.arm} exposure {d.expid}"))
            have.setdefault((*self.delta_key(d), d.arm), []).append(d)
        for k, v in have.items():
            if len(v) > 1:
                out.append(('delta-twice', f"target {k[0]} arm {k[3]} "
                            f"exposure {k[2]} saved {len(v)} times in "
                            f"{[d.file for d in v]}"))
        must, may = {}, {}
        byq = {}
        for s in st:
            if not s.valid:
                continue
            byq.setdefault(s.spec.q['tid'], []).append(s)
            if o['exposures'] == 'after':
                continue
            if not self.build(s):
                out.append(('valid-without-cont',
                            f"target {s.spec.q['tid']} is marked valid "
                            "although no continuum exists for it"))
                continue
            m, y = self.expected_arms(
                s.spec, {k: v[0] for k, v in s.final.items()})
            for arm in y:
                k = (*self.spec_key(s.spec), arm)
                may[k] = s
                if arm in m and not s.soft:
                    must[k] = s
        if o['exposures'] == 'after':
            self._expo_expect(byq, must, may)
        for k in must:
            if k not in have:
                out.append(('delta-missing', f"target {k[0]} arm {k[3]} "
                            f"exposure {k[2]} has a valid continuum but no "
                            "delta"))
        for k, v in have.items():
            if k not in may and k[0] not in self.unjudged:
                out.append(('delta-extra', f"{v[0].file}[{v[0].ext}] should "
                            "not have been saved"))
        self.may = may
        # files
        ranks = {}
        for s in st:
            ranks.setdefault(s.spec.q['tid'], set()).add(
                int(s.row['MPI_RANK']))
        for d in self.out.deltas:
            tok = d.file[len('delta-'):-len('.fits')]
            if o['save_by_hpx']:
                q = [q for q in self.W.Q if q['tid'] == d.tid]
                if q and tok != str(q[0]['hpx']):
                    out.append(('delta-file', f"target {d.tid} of healpixel "
                                f"{q[0]['hpx']} is saved in {d.file}"))
            elif d.tid in ranks and self.W.P['fmt'] != 'tile' and \
                    tok not in {str(k) for k in ranks[d.tid]}:
                out.append(('delta-file', f"target {d.tid} fitted on rank "
                            f"{sorted(ranks[d.tid])} is saved in {d.file}"))
        if not o['save_by_hpx']:
            for f in self.out.files:
                if f.startswith('delta-'):
                    t = f[6:-5]
                    if not t.isdigit() or int(t) >= self.n:
                        out.append(('delta-file', f"unexpected file {f}"))
            for k in range(self.n):
                if f'delta-{k}.fits' not in self.out.files:
                    out.append(('delta-file', f"delta-{k}.fits missing"))
        return out

    def _expo_expect(self, byq, must, may):
        """Exposures requested after fitting."""
        o = self.o
        qs = []
        cs = {}
        for tid, ss in byq.items():
            qs.append(ss[0].spec.q)
            cs[tid] = ss[0]
        o2 = dict(o)
        self.ref_e = Ref(self.W, o2)
        ex = self.ref_e.prefit(True, o['coadd_arms'] != 'disable', qs)
        self.expo_spec = {}
        for s in ex.values():
            c = cs[s.q['tid']]
            if not self.build(c):
                continue
            for arm in list(s.arms):
                if arm not in c.final:
                    del s.arms[arm]
                    continue
                a, b = s.arms[arm], c.final[arm][0]
                lo, hi = max(a.i0, b.i0), min(a.i0 + a.n, b.i0 + b.n)
                if hi <= lo:
                    del s.arms[arm]
                    continue
                sl = slice(lo - a.i0, hi - a.i0)
                n = Arm(lo, a.flux[sl], a.ivar[sl],
                        None if a.reso is None else a.reso[:, sl])
                n.soft = a.soft[sl]
                s.arms[arm] = n
            m, y = self.expected_arms(s, s.arms)
            for arm in y:
                k = (*self.spec_key(s), arm)
                may[k] = (s, c)
                if arm in m and not s.soft and not c.soft:
                    must[k] = (s, c)

    # ---- data of each delta ----------------------------------------------------
    def data(self):
        """C06/C14/C17: contents of every saved delta."""
        out = []
        if not hasattr(self, 'may'):
            self.saved()
        o, W = self.o, self.W
        self.npix = 0
        for d in self.out.deltas:
            e = self.may.get((*self.delta_key(d), d.arm))
            if e is None or d.bad:
                continue
            who = f"{d.file}[{d.ext}]"
            if isinstance(e, tuple):
                s, c = e
                a = s.arms[d.arm]
                b, bc, _ = c.final[d.arm]
                off = a.i0 - b.i0
                cont = bc[off:off + a.n]
                wt = a.ivar
                rsnr, snr = s.rsnr, s.snr.get(d.arm)
                q, expo = s.q, s.expo
                wsoft = bool(a.soft.any())
                csoft = c.soft
                sm = 0.
            else:
                s = e
                a, cont, wt = s.final[d.arm]
                rsnr, snr = s.spec.rsnr, s.snr.get(d.arm)
                q, expo = s.spec.q, s.spec.expo
                wsoft, csoft = s.wsoft, s.soft
                sm = o['smoothing_scale'] if o['smoothing_scale'] > 0 else 0.
            w = a.wave(self.dw)
            if d.wave.size != w.size or not np.all(close(d.wave, w, 1e-7)):
                out.append(('wave', f"{who}: wavelength grid "
                            f"{d.wave[:1]}..{d.wave[-1:]} ({d.wave.size}) "
                            f"expected {w[0]:.2f}..{w[-1]:.2f} ({w.size})"))
                continue
            self.npix += w.size
            ok = ~a.soft
            fsoft = o['coadd_arms'] == 'after' and wsoft \
                and o['exposures'] != 'after'
            if not np.all(np.isfinite(d.delta) & np.isfinite(d.ivar)
                          & np.isfinite(d.weight) & np.isfinite(d.cont)):
                out.append(('finite', f"{who}: non-finite values"))
                continue
            m = ok & ((a.ivar > 0) != (d.ivar > 0))
            if m.any():
                i = int(np.nonzero(m)[0][0])
                out.append(('mask', f"{who}: pixel {w[i]:.2f} ivar "
                            f"{d.ivar[i]:.4g}, expected {a.ivar[i]:.4g}"))
                continue
            m = ok & (d.ivar == 0) & (d.weight != 0)
            if m.any():
                i = int(np.nonzero(m)[0][0])
                out.append(('mask', f"{who}: masked pixel {w[i]:.2f} has "
                            f"weight {d.weight[i]:.4g}"))
            g = ok & (a.ivar > 0)
            if fsoft:
                g[:] = False
            fl = (d.delta + 1) * d.cont
            tol = RT * (np.abs(a.flux) + np.abs(d.cont) + a.ivar.clip(
                1e-30)**-0.5)
            m = g & (np.abs(fl - a.flux) > tol)
            if m.any():
                i = int(np.nonzero(m)[0][0])
                out.append(('flux', f"{who}: flux at {w[i]:.2f} is "
                            f"{fl[i]:.6g}, own data give {a.flux[i]:.6g}"))
            iv = d.ivar / d.cont**2
            m = g & ~close(iv, a.ivar, 4 * RT)
            if m.any() and not csoft:
                i = int(np.nonzero(m)[0][0])
                out.append(('ivar', f"{who}: ivar at {w[i]:.2f} is "
                            f"{iv[i]:.6g}, own data give {a.ivar[i]:.6g}"))
            if a.reso is not None:
                r = None if d.reso is None else d.reso.T
                if r is None or r.shape != a.reso.shape or not np.all(
                        close(r, a.reso, 1e-4, 1e-6)[:, g]):
                    out.append(('reso', f"{who}: resolution matrix differs "
                                "from the quasar's own"))
            elif d.reso is not None:
                out.append(('reso', f"{who}: unexpected resolution matrix"))
            out += self._header(who, d, q, expo, rsnr, snr,
                                fsoft or wsoft, sm)
        return out

    def _header(self, who, d, q, expo, rsnr, snr, soft, sm):
        out = []
        h = d.hdr

        def chk(key, val, rt=1e-6, at=1e-9):
            v = h.get(key)
            if v is None or not close(float(v), float(val), rt, at):
                out.append(('header', f"{who}: {key} = {v}, expected {val}"))
        chk('RA', np.radians(q['ra']))
        chk('DEC', np.radians(q['dec']))
        chk('Z', q['z'])
        chk('RSNR', rsnr, 1e-4, 1e-5)
        if not soft and snr is not None:
            chk('MEANSNR', snr, 2e-4, 1e-5)
        chk('SMSCALE', sm)
        chk('DELTA_LAMBDA', self.dw)
        if h.get('TARGETID') != q['tid'] or h.get('LOS_ID') != q['tid']:
            out.append(('header', f"{who}: identifier {h.get('TARGETID')}"))
        if int(d.ext.split('-')[0]) != q['tid']:
            out.append(('header', f"{who}: extension name"))
        if expo:
            for k, v in self.W.expo_info(q, expo).items():
                chk(k, v)
        elif self.W.P['fmt'] == 'tile':
            chk('TILEID', q['tile'])
            chk('PETAL_LOC', q['petal'])
        return out

    # ---- blinding ----------------------------------------------------------------
    def blinding(self):
        out = []
        b = self.ref.blinding()
        for d in self.out.deltas:
            if d.hdr.get('BLINDING') != b:
                out.append(('blinding', f"{d.file}[{d.ext}]: BLINDING = "
                            f"{d.hdr.get('BLINDING')}, expected {b}"))
            want = 'DELTA' if b == 'none' else 'DELTA_BLIND'
            other = {'DELTA', 'DELTA_BLIND'} - {want}
            if want not in d.names or other & set(d.names):
                out.append(('blinding', f"{d.file}[{d.ext}]: columns "
                            f"{d.names}, expected {want}"))
        return out

    # ---- continua, weights, chi2 -----------------------------------------------------
    def continua(self, minimality=True):
        out = []
        if not hasattr(self, 'may'):
            self.saved()
        o = self.o
        if o['exposures'] != 'after':
            for d in self.out.deltas:
                s = self.may.get((*self.delta_key(d), d.arm))
                if s is None or d.bad:
                    continue
                a, cont, wt = s.final[d.arm]
                if d.cont.size != cont.size:
                    continue
                out += self._cont_weight(d, s, a, cont, wt)
        else:
            for d in self.out.deltas:
                e = self.may.get((*self.delta_key(d), d.arm))
                if e is None or d.bad:
                    continue
                s, c = e
                a = s.arms[d.arm]
                b, bc, _ = c.final[d.arm]
                off = a.i0 - b.i0
                cont = bc[off:off + a.n]
                if d.cont.size != cont.size:
                    continue
                who = f"{d.file}[{d.ext}]"
                m = np.isfinite(cont) & ~self._contclose(c, a, d.cont, cont)
                if m.any() and not c.soft:
                    i = int(np.nonzero(m)[0][0])
                    out.append(('expo-cont', f"{who}: continuum "
                                f"{d.cont[i]:.6g} at pixel {i}, coadd has "
                                f"{cont[i]:.6g}"))
                m = ~close(d.weight, d.ivar, 1e-6)
                if m.any():
                    out.append(('expo-weight', f"{who}: weight is not its "
                                "own inverse variance"))
        for s in self.match():
            out += self._chi2(s, minimality)
        return out

    def _contclose(self, s, a, got, cont):
        w = a.wave(self.dw)
        c, sc = self.model_cont(s, w)
        f = np.abs(cont) / np.where(c == 0, 1, np.abs(c))
        return np.abs(got - cont) <= 2e-6 * sc * f + 1e-7 * np.abs(cont)

    def _cont_weight(self, d, s, a, cont, wt):
        out = []
        who = f"{d.file}[{d.ext}]"
        w = a.wave(self.dw)
        fin = np.isfinite(cont)
        m = fin & ~self._contclose(s, a, d.cont, cont)
        if m.any():
            i = int(np.nonzero(m)[0][0])
            out.append(('cont', f"{who}: continuum at {w[i]:.2f} is "
                        f"{d.cont[i]:.7g}, recorded functions give "
                        f"{cont[i]:.7g}"))
        gap = ~fin
        if gap.any():
            bad = ~np.isfinite(d.cont) | ~np.isfinite(d.delta) \
                | (d.ivar != 0) | (d.weight != 0) | (d.delta != 0)
            self.note('gap')
            if np.any(gap & bad):
                i = int(np.nonzero(gap & bad)[0][0])
                out.append(('cont', f"{who}: no arm covers {w[i]:.2f}, but "
                            f"continuum {d.cont[i]:.6g}, delta "
                            f"{d.delta[i]:.6g}, ivar {d.ivar[i]:.6g}, weight "
                            f"{d.weight[i]:.6g} are saved there"))
        neg = fin & (d.cont < 0)
        if self.o['normalize']:
            # the stacked flux of a few noisy spectra may be negative
            neg &= self.stacked(w) > 0
        if np.any(neg):
            out.append(('cont-negative', f"{who}: negative continuum"))
        if not s.wsoft:
            x = d.weight / np.where(d.cont == 0, 1, d.cont)**2
            m = fin & (d.cont > 0) & ~close(x, wt, 2e-4)
            if m.any():
                i = int(np.nonzero(m)[0][0])
                out.append(('weight', f"{who}: weight/C^2 at {w[i]:.2f} is "
                            f"{x[i]:.6g}, formula gives {wt[i]:.6g}"))
        else:
            self.note('soft-weights')
        return out

    def _chi2(self, s, minimality):
        out = []
        o, r, q = self.o, s.row, s.spec.q
        t = q['tid']
        nreal = s.spec.nreal()
        dof = nreal - (o['cont_order'] + 1 if o['model'] == 'picca' else 0)
        if not s.soft and int(r['CONT_dof']) != dof:
            out.append(('dof', f"{t}: dof {r['CONT_dof']}, expected {dof}"))
        if not s.valid:
            if float(r['CONT_chi2']) != -1:
                out.append(('chi2', f"{t}: invalid but chi2 = "
                            f"{r['CONT_chi2']}"))
            if o['model'] == 'true':
                out.append(('invalid', f"{t}: true continuum invalid"))
            if o['model'] == 'input':
                bad = False
                for a in s.spec.arms.values():
                    w = a.wave(self.dw)
                    c = self.ref.fixed_continuum(q, w)
                    if c is None or np.any(c <= 1e-6):
                        bad = True
                if not bad:
                    out.append(('invalid', f"{t}: usable input continuum "
                                "marked invalid"))
            return out
        if o['model'] == 'input':
            for a in s.spec.arms.values():
                c = self.ref.fixed_continuum(q, a.wave(self.dw))
                if c is None or np.any(c < -1e-6):
                    out.append(('invalid', f"{t}: valid although its input "
                                "continuum is missing or negative"))
                    return out
        if not self.build(s):
            return out
        if not s.wsoft:
            if o['coadd_arms'] == 'after':
                x = s.final
            else:
                x = s.arms0
            chi2, mag = 0., 0.
            for a, c, wt in x.values():
                if o['coadd_arms'] == 'after':
                    c = np.where(np.isfinite(c), c, 0)
                    wt = np.where(np.isfinite(wt), wt, 0)
                chi2 += np.sum(wt * (a.flux - c)**2)
                mag += np.sum(np.abs(wt) * (a.flux**2 + c**2))
            if not close(float(r['CONT_chi2']), chi2, 5e-4,
                         1e-5 * mag**0.5 + 1e-6 * mag):
                out.append(('chi2', f"{t}: chi2 {r['CONT_chi2']}, "
                            f"recomputed {chi2}"))
        if minimality and o['model'] == 'picca' and not s.wsoft:
            out += self._minimal(s)
        return out

    def cost_fn(self, s):
        it = self.niter_done()
        tab = self.out.attrd[f'CONT-{it}']
        g = tab['lambda_rf']
        parts = []
        for a in s.spec.arms.values():
            w = a.wave(self.dw)
            rf = w / (1 + s.spec.q['z'])
            m = cub_interp(rf, g[0], g[1] - g[0], tab['mean_cont']) \
                * self.ref.meanflux(w)
            u = 2 * np.log(rf / g[0]) / np.log(g[-1] / g[0]) - 1
            iv, _ = self.sm(a.ivar)
            vl, eta = self.funcs('last', w)
            k = iv > 0
            parts.append((m[k], u[k], a.flux[k], iv[k], vl[k], eta[k]))

        def cost(x):
            t = 0.
            for m, u, f, iv, vl, eta in parts:
                c = m * sum(xi * u**i for i, xi in enumerate(x))
                wt = iv / (eta + iv * vl * c**2)
                p = wt > 0
                t += np.sum(wt * (f - c)**2) - np.sum(np.log(wt[p]))
            return t
        return cost

    def _minimal(self, s):
        x = np.array(s.row['CONT_x'], dtype='f8').ravel()
        for a in s.spec.arms.values():
            vl, eta = self.funcs('last', a.wave(self.dw))
            if np.any(vl < 0) or np.any(eta <= 0):
                self.note('unbounded-cost')
                return []
        cost = self.cost_fn(s)
        c0 = cost(x)
        best = c0
        for meth in ('L-BFGS-B', 'Nelder-Mead'):
            r = minimize(cost, x, method=meth)
            best = min(best, float(r.fun))
        gain = c0 - best
        self.maxgain = max(getattr(self, 'maxgain', 0.), gain)
        if gain > 0.3:
            return [('not-minimal', f"{s.spec.q['tid']}: polynomial {x} has "
                     f"cost {c0:.4f}, a nearby one {best:.4f}")]
        return []

    # ---- attributes -----------------------------------------------------------------
    def attributes(self):
        out = []
        o = self.o
        if self.out.attr is None:
            return [('attr-missing', 'no attributes.fits')]
        names = [a[0] for a in self.out.attr]
        fid = self.ref.uses_fid_varlss()
        k = self.niter_done()
        nit = 1 if o['model'] == 'true' else o['num_iterations']
        base = ['CONT', 'STACKED_FLUX', 'STACKED_FLUX_RF']
        want = []
        for i in range(1, k + 1):
            want += [f'{b}-{i}' for b in base]
            if not fid:
                want += [f'VAR_FUNC-{i}']
        want += base + ([] if fid else ['VAR_FUNC'])
        if fid:
            want += [f'{b}-fit' for b in base] + ['VAR_FUNC-fit']
        want += ['VAR_STATS']
        if names != want or not 1 <= k <= nit:
            return [('attr-ext', f"extensions {names}, expected {want}")]
        A = self.out.attrd
        if not np.all(close(A['CONT-1']['mean_cont'], 1., 1e-12)) \
                or np.any(A['CONT-1']['e_mean_cont'] != 0):
            out.append(('attr-init', 'CONT-1 is not one'))
        if not np.all(close(A['STACKED_FLUX-1']['stacked_flux'], 1., 1e-12)):
            out.append(('attr-init', 'STACKED_FLUX-1 is not one'))
        if not fid:
            v = A['VAR_FUNC-1']
            if not np.all(close(v['var_lss'], 0.1, 1e-12)) \
                    or not np.all(close(v['eta'], 1., 1e-12)):
                out.append(('attr-init', 'VAR_FUNC-1 is not 0.1, 1'))
        g = self.ref.rfgrid()
        for nme, h, t in self.out.attr:
            for col in t.dtype.names:
                if t[col].dtype.kind == 'f' and col != 'cov_var_delta' and \
                        not np.all(np.isfinite(t[col])):
                    out.append(('attr-finite', f"{nme}.{col} not finite"))
            if nme.startswith('CONT') or nme.startswith('STACKED_FLUX_RF'):
                if t.size != g.size or not np.all(
                        close(t['lambda_rf'], g, 1e-9)):
                    out.append(('attr-grid', f"{nme} grid"))
        if not o['var_fit_eta']:
            for nme in names:
                if nme.startswith('VAR_FUNC') and not np.all(
                        close(A[nme]['eta'], 1., 1e-12)):
                    out.append(('attr-eta', f"{nme}: eta is not fitted but "
                                "differs from one"))
        # convergence: stopped early only if converged, went on only if not
        for i in range(1, k + 1):
            a = A[f'CONT-{i}']['mean_cont']
            nx = A[f'CONT-{i + 1}' if i < k else 'CONT']
            b, e = nx['mean_cont'], nx['e_mean_cont']
            with np.errstate(all='ignore'):
                r = b / a - 1
                lhs = np.max(np.abs(r) / (0.33 * e))
                ch = np.sum((r / e)**2) / g.size
            conv = lhs < 1 or ch < 1e-3
            soft = abs(lhs - 1) < 1e-6 or abs(ch / 1e-3 - 1) < 1e-6
            if soft:
                continue
            if i < k and conv:
                out.append(('attr-stop', f"iteration {i} had converged but "
                            "went on"))
            if i == k and not conv and k < nit:
                out.append(('attr-stop', f"stopped after {k} of {nit} "
                            "iterations without convergence"))
        return out

    def valid_states(self):
        """States of valid spectra, or None if some cannot be judged."""
        st = self.match()
        if self.row_problems:
            return None
        v = []
        for s in st:
            if not s.valid:
                continue
            if s.soft or not self.build(s) or s.wsoft:
                return None
            v.append(s)
        if len(self.out.chi2) != len(st):
            return None
        return v

    def globals(self):
        """C12: last stacks and variance statistics from all valid spectra."""
        out = []
        v = self.valid_states()
        if v is None:
            self.note('soft-globals')
            return out
        o, A = self.o, self.out.attrd
        if 'STACKED_FLUX' not in A or 'VAR_STATS' not in A:
            return out
        fid = self.ref.uses_fid_varlss()
        t = A['STACKED_FLUX']
        nb = t.size
        x0, dx = t['lambda'][0], t['lambda'][1] - t['lambda'][0]
        num, den = np.zeros(nb), np.zeros(nb)
        g = self.ref.rfgrid()
        rn, rd = np.zeros(g.size), np.zeros(g.size)
        flips = 0
        edge = np.zeros(nb + 1, dtype=bool)
        for s in v:
            for a, c, wt in s.arms0.values():
                w = a.wave(self.dw)
                ww = wt * c**2
                p = (w - x0) / dx + 0.5
                near = np.abs(p - np.round(p)) < 1e-7
                for q_ in np.round(p[near]).astype(int):
                    edge[max(q_ - 1, 0):q_ + 1] = True
                k = p.astype(int)
                num += np.bincount(k, ww * a.flux / c, nb)[:nb]
                den += np.bincount(k, ww, nb)[:nb]
                rf = w / (1 + s.spec.q['z'])
                p = (rf - g[0]) / (g[1] - g[0]) + 0.5
                flips += np.sum(np.abs(p - np.round(p)) < 1e-9)
                k = p.astype(int).clip(0, g.size - 1)
                y = c if o['model'] != 'picca' else a.flux / c
                rn += np.bincount(k, ww * y, g.size)
                rd += np.bincount(k, ww, g.size)
        ex = np.where(den > 0, num / np.where(den > 0, den, 1), 0)
        m = ~close(ex, t['stacked_flux'], 2e-4, 2e-5) & ~edge[:nb]
        if m.any():
            i = int(np.nonzero(m)[0][0])
            out.append(('stacked', f"STACKED_FLUX at {t['lambda'][i]:.1f} is "
                        f"{t['stacked_flux'][i]:.7g}, all valid spectra give "
                        f"{ex[i]:.7g}"))
        if not flips:
            ex = np.where(rd > 0, rn / np.where(rd > 0, rd, 1), 0)
            er = np.where(rd > 0, np.where(rd > 0, rd, 1)**-0.5, 0)
            t = A['STACKED_FLUX_RF']
            m = ~close(ex, t['stacked_flux_rf'], 2e-4, 2e-5) \
                | ~close(er, t['e_stacked_flux_rf'], 2e-4)
            if m.any():
                i = int(np.nonzero(m)[0][0])
                out.append(('stacked-rf', f"STACKED_FLUX_RF at {g[i]:.1f} is "
                            f"{t['stacked_flux_rf'][i]:.7g}, all valid "
                            f"spectra give {ex[i]:.7g}"))
        arms = []
        for s in v:
            for arm, (a, c, wt) in s.arms0.items():
                iv = a.ivar
                if fid:
                    # the final variance fit sees normalised continua
                    if o['normalize']:
                        c = c * self.stacked(a.wave(self.dw))
                arms.append((a.wave(self.dw), a.flux / c - 1, iv * c**2))
        h = [h for n_, h, _ in self.out.attr if n_ == 'VAR_STATS'][0]
        out += var_stats_check(A['VAR_STATS'], h, arms,
                               self.o['wave1'], self.o['wave2'])
        # the functions recorded last are those of the statistics recorded
        from .calcase import var_func_check
        f = A.get('VAR_FUNC-fit' if fid else 'VAR_FUNC')
        p = None if fid else A.get(f'VAR_FUNC-{self.niter_done()}')
        if f is not None and (fid or p is not None):
            out += var_func_check(
                f, A['VAR_STATS'], h, eta=o['var_fit_eta'],
                p0=None if p is None else np.array(
                    [p['var_lss'], p['eta']]).T)
        return out


def var_stats_check(t, h, items, wave1, wave2, rt=3e-4):
    """Compare a VAR_STATS table with statistics of (wave, delta, ivar)."""
    nw, nv = int(h['NWBINS']), int(h['NVARBINS'])
    e = np.logspace(np.log10(h['IVAR1']), np.log10(h['IVAR2']), nv + 1)
    dw = (wave2 - wave1) / nw
    S = np.zeros((5, nw, nv))
    Q = np.zeros((nw, nv))
    soft = np.zeros((nw, nv), dtype=bool)
    for w, d, iv in items:
        p = (w - wave1) / dw
        k = np.floor(p).astype(int)
        j = np.searchsorted(e, iv) - 1
        ok = (k >= 0) & (k < nw) & (j >= 0) & (j < nv)
        # values at a bin edge within float32 rounding
        le = np.log(np.where(iv > 0, iv, 1e-30))
        edges = np.log(e)
        ds = (edges[1] - edges[0])
        f = (le - edges[0]) / ds
        nearj = np.abs(f - np.round(f)) * ds < 3e-5
        neark = np.abs(p - np.round(p)) < 1e-9
        for i in np.nonzero((nearj | neark) & (iv > 0))[0]:
            jj, kk = int(np.round(f[i])), int(k[i])
            for q in (jj - 1, jj):
                for r in (kk - 1, kk):
                    if 0 <= q < nv and 0 <= r < nw:
                        soft[r, q] = True
        if not ok.any():
            continue
        idx = (k[ok], j[ok])
        d_, iv_ = d[ok], iv[ok]
        for c, val in enumerate((np.ones(d_.size), d_, d_**2, d_**4,
                                 1 / iv_)):
            np.add.at(S[c], idx, val)
        z = np.zeros((nw, nv))
        np.add.at(z, idx, 1)
        Q += z > 0
    out = []
    n = t['num_pixels'].reshape(nw, nv)
    nq = t['num_qso'].reshape(nw, nv)
    m = ~soft & ((n != S[0]) | (nq != Q))
    if m.any():
        i, j = [int(x[0]) for x in np.nonzero(m)]
        out.append(('var-stats', f"bin ({i},{j}): {n[i, j]} pixels of "
                    f"{nq[i, j]} spectra, all spectra together have "
                    f"{int(S[0][i, j])} of {int(Q[i, j])}"))
        return out
    g = ~soft & (S[0] > 0)
    c = np.where(S[0] > 0, S[0], 1)
    mean = S[1] / c
    var = S[2] / c - mean**2
    vp = S[4] / c
    sc = np.sqrt(S[2] / c)
    # the continua of a fit are recomputed from single precision parameters
    ep = 1e-6 if rt > 1e-5 else 0.
    for name, ex, at in (('mean_delta', mean, 1e-4 * sc + ep),
                         ('var_delta', var, 3e-4 * S[2] / c + ep * sc),
                         ('var_pipe', vp, 0)):
        got = t[name].reshape(nw, nv)
        m = g & ~close(got, ex, rt, at)
        if m.any():
            i, j = [int(x[0]) for x in np.nonzero(m)]
            out.append(('var-stats', f"bin ({i},{j}): {name} = "
                        f"{got[i, j]:.7g}, all spectra together give "
                        f"{ex[i, j]:.7g}"))
    return out
