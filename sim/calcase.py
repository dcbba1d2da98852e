"""The calibration program on synthetic delta files."""
import os

import fitsio
import numpy as np
from scipy.interpolate import UnivariateSpline
from scipy.optimize import curve_fit

from . import gen
from .ctx import Inconclusive
from .deltaworld import DeltaWorld
from .fitcase import alike_failure, errors_logged
from .kernel import HarnessError
from .oracle import close, var_stats_check
from .outputs import read_tables

DEF = dict(nvarbins=12, nwbins=None, var1=5e-3, var2=10., min_snr=0.,
           max_snr=100., wave1=3600., wave2=4700., use_cov=False, remove=0,
           bal=False, surveys=None, catalog=False, fbase=None, decoys=True)


def case(r, nmax=7, **over):
    p = dict(dseed=r.randrange(1 << 30), nt=r.randint(60, 110),
             nfiles=r.randint(1, 9), dw=gen.pick(r, (4., 3), (3.2, 1),
                                                 (6., 1)),
             arms=gen.pick(r, (1, 2), (2, 1)), copies=gen.pick(
                 r, (1, 2), (2, 1)), masked=gen.pick(r, (.05, 3), (0., 1)),
             empties=gen.pick(r, (0, 3), (1, 1), (2, 1)),
             loglam=r.random() < .15, gz=r.random() < .15,
             idkey=gen.pick(r, ('TARGETID', 4), ('MOCKID', 1),
                            ('THING_ID', 1)),
             blind=r.random() < .3, reso=r.random() < .1,
             f4=r.random() < .2, bals=.25, snr_edge=r.random() < .3,
             near=r.random() < .4,
             faint=gen.pick(r, (0., 3), (.06, 1)))
    o = dict(nvarbins=r.randint(8, 14), nwbins=gen.pick(
        r, (None, 2), (7, 1), (8, 1)), use_cov=r.random() < .15)
    if r.random() < .35:
        o['min_snr'] = gen.pick(r, (.5, 1), (1.0, 2))
    if r.random() < .35:
        o['max_snr'] = gen.pick(r, (2.0, 2), (4., 1))
    if r.random() < .35:
        o['remove'] = gen.pick(r, (1, 1), (5, 2), (-1, 1))
    if r.random() < .3:
        o['catalog'] = True
        o['bal'] = r.random() < .6
        o['surveys'] = gen.pick(r, (None, 1), (['main'], 1),
                                (['sv3'], .5), (['main', 'sv3'], .5))
    if r.random() < .2:
        o['wave1'], o['wave2'] = 3700., 4600.
    if r.random() < .2:
        o['fbase'] = 'my-eta'
    p.update(over.pop('world', {}))
    o.update(over.pop('opts', {}))
    c = dict(dw=p, copts=o, n=r.randint(1, nmax), seed=r.randrange(1 << 40),
             policy=r.choice(gen.POLICIES))
    c.update(over)
    return c


class Setup:
    def __init__(self, ctx, case, inname='in'):
        self.ctx, self.case = ctx, case
        self.o = dict(DEF, **case['copts'])
        o = self.o
        try:
            root = os.path.join(ctx.root, inname)
            os.makedirs(root, exist_ok=True)
            self.W = DeltaWorld(case['dw']).write(root)
            g = np.random.default_rng([self.W.P['dseed'], 5])
            self.removed = set()
            self.p = {}
            if o['remove']:
                ids = [t['tid'] for t in self.W.targets]
                g.shuffle(ids)
                ids = ids[:o['remove']] if o['remove'] > 0 else [123456]
                ids = [int(i) for i in ids]
                self.p['remove'] = self.W.write_removal(ids + ids[:1])
                if len(ids) == 1:
                    self.p['remove'] = self.W.write_removal(ids)
                self.removed |= set(ids)
            if o['catalog']:
                self.p['cat'] = self.W.write_catalog()
                for t in self.W.targets:
                    if o['bal'] and (t['bal'] or t['bal2']):
                        self.removed.add(t['tid'])
                    if o['surveys'] and t['survey'] not in o['surveys']:
                        self.removed.add(t['tid'])
            if o['decoys']:
                d = self.W.dirs[0]
                fitsio.write(os.path.join(d, 'attributes.fits'),
                             np.zeros(3, dtype=[('lambda', 'f8')]),
                             extname='CONT', clobber=True)
                with open(os.path.join(d, 'xdelta-0.fits'), 'w') as f:
                    f.write('not a delta file')
        except Exception as e:
            raise HarnessError(f"deltas cannot be made: {e!r}")

    def argv(self, out):
        o = self.o
        a = ['-i', self.W.dirs[0], '-o', os.path.join(self.ctx.root, out)]
        for k in ('nvarbins', 'nwbins', 'var1', 'var2', 'min_snr', 'max_snr',
                  'wave1', 'wave2', 'fbase'):
            if o[k] is not None:
                a += ['--' + k.replace('_', '-'), str(o[k])]
        if o['use_cov']:
            a += ['--var-use-cov']
        if 'remove' in self.p:
            a += ['--remove-targetid-list', self.p['remove']]
        if 'cat' in self.p:
            a += ['--catalog', self.p['cat']]
            if o['bal']:
                a += ['--remove-bal-qsos']
            if o['surveys']:
                a += ['--keep-surveys'] + o['surveys']
        return a

    def run(self, name, out, n=None, **kw):
        return self.ctx.run(name, 'calib', self.argv(out),
                            n or self.case['n'], **kw)

    def failure(self, r):
        if r.ok:
            return []
        if alike_failure(r) and not self.case.get('strict'):
            raise Inconclusive('program-gave-up: ' + (
                errors_logged(r) or ['?'])[0][:60])
        if r.aborted and 'fpcurf0' in r.describe() and \
                not self.case.get('strict'):
            # fewer than four wavelength bins could be fitted
            raise Inconclusive('program-gave-up: spline')
        return [('run-fails', f"fault-free run does not succeed: "
                 f"{r.describe()}")]

    # -- reference ---------------------------------------------------------
    def kept(self):
        o = self.o
        return [d for d in self.W.deltas if d.tid not in self.removed
                and o['min_snr'] < d.snr < o['max_snr']]

    def outfile(self, out):
        o = self.o
        return os.path.join(
            self.ctx.root, out, f"{o['fbase'] or 'qsonic-eta-fits'}-"
            f"snr{o['min_snr']:.1f}-{o['max_snr']:.1f}-variance-stats.fits")

    def judge(self, out):
        o, v = self.o, []
        d = os.path.join(self.ctx.root, out)
        fn = self.outfile(out)
        if not os.path.exists(fn):
            return [('no-output', f"{os.path.basename(fn)} is missing: "
                     f"{os.listdir(d) if os.path.isdir(d) else 'no dir'}")]
        T = read_tables(fn)
        names = [t[0] for t in T]
        if names != ['VAR_STATS', 'VAR_FUNC', 'STACKED_FLUX']:
            return [('extensions', f"{names}")]
        K = self.kept()
        # what is read back differs from what was written by rounding only
        items = []
        for x in K:
            w = x.wave
            items.append((w, np.where(x.ivar > 0, x.delta, 0.), x.ivar))
        h, t = T[0][1], T[0][2]
        for k, ex in (('MINSNR', o['min_snr']), ('MAXSNR', o['max_snr']),
                      ('NVARBINS', o['nvarbins']),
                      ('IVAR1', 1 / o['var2']), ('IVAR2', 1 / o['var1'])):
            if not close(float(h[k]), ex, 1e-9):
                v.append(('header', f"{k} = {h[k]}, expected {ex}"))
        nw = o['nwbins'] or int(round((o['wave2'] - o['wave1']) / 120))
        if int(h['NWBINS']) != nw:
            v.append(('header', f"NWBINS = {h['NWBINS']}, expected {nw}"))
            return v
        v += var_stats_check(t, h, items, o['wave1'], o['wave2'], rt=1e-6)
        v += var_func_check(T[1][2], t, h)
        # stacked flux
        dw = self.W.P['dw']
        nb = int((o['wave2'] - o['wave1']) / dw) + 1
        s = T[2][2]
        if s.size != nb or not np.all(close(
                s['lambda'], np.linspace(o['wave1'], o['wave2'], nb),
                1e-9)):
            v.append(('stacked', f"grid of {s.size} pixels, expected {nb}"))
            return v
        a, b = np.zeros(nb), np.zeros(nb)
        edge = np.zeros(nb, dtype=bool)
        for x in K:
            q = (x.wave - o['wave1']) / dw
            i = np.round(q).astype(int)
            e = np.abs(np.abs(q - np.floor(q)) - .5) < 1e-6
            for j in i[e]:
                edge[max(0, j - 1):j + 2] = True
            m = (i >= 0) & (i < nb)
            y = np.where(x.ivar > 0, x.delta, 0.)
            np.add.at(a, i[m], (1 + y[m]) * x.weight[m])
            np.add.at(b, i[m], x.weight[m])
        ex = np.where(b > 0, a / np.where(b > 0, b, 1), 0)
        m = ~close(s['stacked_flux'], ex, 1e-9, 1e-9) & ~edge
        if m.any():
            i = int(np.nonzero(m)[0][0])
            v.append(('stacked', f"stacked flux at {s['lambda'][i]:.1f} is "
                      f"{s['stacked_flux'][i]:.9g}, all kept deltas give "
                      f"{ex[i]:.9g}"))
        return v


def var_func_check(f, t, h, rt=2e-3, p0=None, eta=True):
    """Refit the recorded statistics (from p0, columns var_lss and eta)."""
    nw, nv = int(h['NWBINS']), int(h['NVARBINS'])
    nc = 2 if eta else 1
    if p0 is None:
        p0 = np.tile([.1, 1.], (nw, 1))
    res, std = np.zeros((nw, nc)), np.zeros((nw, nc))
    for i in range(nw):
        s = np.s_[i * nv:(i + 1) * nv]
        ok = (t['num_pixels'][s] >= h['MINNPIX']) & (
            t['num_qso'][s] >= h['MINNQSO'])
        if ok.sum() < 5:
            ok = (t['num_pixels'][s] >= h['MINNPIX'] // 2) & (
                t['num_qso'][s] >= h['MINNQSO'] // 2)
        if ok.sum() < 5:
            continue
        err = t['e_var_delta'][s][ok]
        if 'cov_var_delta' in t.dtype.names:
            c = t['cov_var_delta'][s][:, ok][ok, :]
            try:
                np.linalg.cholesky(c)
                err = c
            except np.linalg.LinAlgError:
                pass
            if np.linalg.cond(c) > 1e8 or np.min(
                    np.linalg.eigvalsh(c)) < 1e-6 * np.max(np.abs(c)):
                return []          # rounding decides; not judged
        x0 = p0[i, :nc]
        if np.any(np.minimum(np.abs(x0), np.abs(x0 - 2)) < 1e-9):
            return []              # rounding decides whether it is feasible
        try:
            p, pc = curve_fit(
                (lambda x, a, b: b * x + a) if eta else (lambda x, a: x + a),
                t['var_pipe'][s][ok], t['var_delta'][s][ok],
                p0=x0, sigma=err, absolute_sigma=True, bounds=(0, 2))
        except Exception:
            continue
        res[i], std[i] = p, np.sqrt(np.diag(pc))
    out = []
    w = res[:, 0] > 0
    for c, name in list(enumerate(('var_lss', 'eta')))[:nc]:
        if not np.all(close(f['e_' + name], std[:, c], 1e-2,
                            1e-3 * np.max(std[:, c]) + 1e-12)):
            i = int(np.argmax(np.abs(f['e_' + name] - std[:, c])))
            out.append(('var-func', f"e_{name}[{i}] = {f['e_' + name][i]:.6g}"
                        f", recorded statistics give {std[i, c]:.6g}"))
        try:
            y = UnivariateSpline(f['lambda'][w], res[w, c],
                                 w=1 / std[w, c])(f['lambda'])
        except Exception:
            continue
        m = ~close(f[name], y, rt, rt * np.median(np.abs(y)))
        if m.any():
            i = int(np.nonzero(m)[0][0])
            out.append(('var-func', f"{name}[{i}] = {f[name][i]:.7g}, "
                        f"recorded statistics give {y[i]:.7g}"))
    return out
