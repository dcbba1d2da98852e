"""The coaddition program on synthetic delta files."""
import os

import numpy as np

from . import gen, outputs
from .deltaworld import DeltaWorld
from .kernel import HarnessError

DEF = dict(nside=8, nest=False, nproc=None)


def case(r, **over):
    p = dict(dseed=r.randrange(1 << 30), nt=r.randint(3, 14),
             nfiles=r.randint(1, 8), ndirs=r.randint(1, 3),
             dw=gen.pick(r, (0.8, 1), (4., 2), (1.6, 1), (3.2, 1)),
             w2=4000., arms=gen.pick(r, (1, 1), (2, 2), (3, 1)),
             copies=gen.pick(r, (1, 1), (2, 2), (4, 2)),
             masked=gen.pick(r, (.05, 2), (0., 1), (.4, 1)),
             dead=gen.pick(r, (0., 2), (.4, 1)),
             empties=gen.pick(r, (0, 3), (1, 1), (2, 1)),
             loglam=r.random() < .15, gap=gen.pick(r, (0., 1), (.6, 1)),
             idkey=gen.pick(r, ('TARGETID', 4), ('MOCKID', 1),
                            ('THING_ID', 1)),
             blind=r.random() < .3, reso=r.random() < .4,
             mixed_diag=r.random() < .5, f4=r.random() < .2,
             npix=r.randint(1, 5), zerow=gen.pick(r, (0., 2), (.5, 1)),
             near=r.random() < .4)
    p['ndirs'] = min(p['ndirs'], p['nfiles'])
    o = dict(nside=gen.pick(r, (8, 2), (2, 1), (16, 1), (64, 1)),
             nest=r.random() < .4,
             nproc=gen.pick(r, (None, 1), (1, 1), (2, 2), (4, 2)))
    p.update(over.pop('world', {}))
    o.update(over.pop('opts', {}))
    c = dict(dw=p, copts=o, n=1, seed=r.randrange(1 << 40),
             policy=r.choice(gen.POLICIES))
    c.update(over)
    return c


class Setup:
    def __init__(self, ctx, case, inname='in'):
        self.ctx, self.case = ctx, case
        self.o = dict(DEF, **case['copts'])
        try:
            root = os.path.join(ctx.root, inname)
            os.makedirs(root, exist_ok=True)
            self.W = DeltaWorld(case['dw']).write(root)
        except Exception as e:
            raise HarnessError(f"deltas cannot be made: {e!r}")

    def argv(self, out, dirs=None):
        o = self.o
        od = self.ctx.dir(out)
        a = ['-i'] + list(dirs or self.W.dirs) + ['-o', od]
        a += ['--nside', str(o['nside'])]
        if o['nest']:
            a += ['--nest']
        if o['nproc']:
            a += ['--nproc', str(o['nproc'])]
        return a

    def run(self, name, out, dirs=None, **kw):
        return self.ctx.run(name, 'coadd', self.argv(out, dirs), 1, **kw)

    def reference(self):
        """tid -> dict of arrays (None entries are not determined)."""
        W, out = self.W, {}
        by = {}
        for d in W.deltas:
            by.setdefault(d.tid, []).append(d)
        for tid, L in by.items():
            e = dict(n=len(L), hpx=W.hpx(tid, self.o['nside'],
                                         self.o['nest']))
            if len(L) == 1:
                d = L[0]
                e.update(wave=d.wave, delta=np.where(d.ivar > 0, d.delta, 0),
                         ivar=d.ivar, weight=d.weight, cont=d.cont,
                         reso=d.reso, snr=d.snr, hdr=d.hdr, copy=True,
                         cover=np.ones(d.wave.size, bool))
                out[tid] = e
                continue
            lo = min(d.i0 for d in L)
            hi = max(d.i0 + d.wave.size for d in L)
            n = hi - lo
            S = np.zeros((6, n))
            nd = max(d.reso.shape[1] for d in L) if L[0].reso is not None \
                else 0
            R = np.zeros((n, nd))
            rn = np.zeros(n)
            for d in L:
                s = np.s_[d.i0 - lo:d.i0 - lo + d.wave.size]
                g = d.weight > 0
                iv = np.where(g, d.ivar, 1)
                S[0, s] += d.weight
                S[1, s] += d.weight * np.where(d.ivar > 0, d.delta, 0)
                S[2, s] += d.weight * d.cont
                S[3, s] += np.where(g, d.weight**2 / iv, 0)
                S[4, s] += np.where(g, 1 - d.weight / iv, 0)
                S[5, s] += 1
                if nd:
                    q = (nd - d.reso.shape[1]) // 2
                    m = np.zeros((d.wave.size, nd))
                    m[:, q:q + d.reso.shape[1]] = d.reso
                    w = np.where(g, d.weight, 1e-8)
                    R[s] += w[:, None] * m
                    rn[s] += w
            g = S[0] > 0
            x = np.where(g, S[0], 1)
            iv = np.where(g, x**2 / np.where(g, S[3], 1), 0)
            lss = np.where(g, S[4] / x, 0)
            de = np.where(g, S[1] / x, 0)
            e.update(wave=W.grid[lo:hi], delta=de, ivar=iv,
                     weight=iv / (1 + iv * lss), cont=np.where(
                         g, S[2] / x, 0), copy=False, cover=S[5] > 0,
                     reso=R / np.where(rn > 0, rn, 1)[:, None] if nd
                     else None,
                     snr=float(np.dot(np.sqrt(iv), 1 + de)
                               / max(1, g.sum())), anygood=bool(g.any()))
            common = {}
            for k, v in L[0].hdr.items():
                if k != 'MEANSNR' and all(d.hdr[k] == v for d in L):
                    common[k] = v
            e['hdr'] = common
            out[tid] = e
        return out

    def judge(self, out):
        v = []
        R = self.reference()
        got = {}
        d = os.path.join(self.ctx.root, out)
        bad = []
        names = sorted(os.listdir(d))
        for x in names:
            if not (x.startswith('delta-') and x.endswith('.fits')):
                v.append(('file-set', f"unexpected output {x}"))
        for x in outputs.read_deltas(d, unreadable=bad):
            if x.tid < 0:
                x.tid = int(x.ext.split('-')[0])
            got.setdefault(x.tid, []).append(x)
        for b, m in bad:
            v.append(('unreadable', f"{b}: {m}"))
        for tid in sorted(set(R) | set(got)):
            g = got.get(tid, [])
            if tid not in R:
                v.append(('extra-target', f"{tid} in {g[0].file}"))
                continue
            e = R[tid]
            if len(g) != 1:
                v.append(('target-count', f"{tid} has {e['n']} input deltas "
                          f"and {len(g)} output deltas"))
                continue
            v += self.one(tid, e, g[0])
            if len(v) > 4:
                break
        nfile = len({e['hpx'] for e in R.values()})
        if len([x for x in names if x.startswith('delta-')]) != nfile:
            v.append(('file-set', f"{len(names)} files for {nfile} "
                      "healpixels"))
        return v

    def one(self, tid, e, x):
        v = []
        who = f"{tid} ({e['n']} inputs)"
        if x.file != f"delta-{e['hpx']}.fits":
            v.append(('wrong-file', f"{who} is in {x.file}, healpixel is "
                      f"{e['hpx']}"))
        if x.blindcol != bool(self.W.P['blind']):
            v.append(('blinding', f"{who}: columns {x.names}"))
        if str(tid) != x.ext.split('-')[0]:
            v.append(('extname', f"{who}: {x.ext}"))
        if x.wave.shape != e['wave'].shape or not np.allclose(
                x.wave, e['wave'], rtol=1e-9, atol=0):
            return v + [('wave', f"{who}: {x.wave.size} pixels "
                         f"{x.wave[0]:.3f}-{x.wave[-1]:.3f}, expected "
                         f"{e['wave'].size} {e['wave'][0]:.3f}-"
                         f"{e['wave'][-1]:.3f}")]
        good = e['ivar'] > 0
        for k in ('ivar', 'weight', 'delta', 'cont'):
            a, b = getattr(x, k), e[k]
            # what a pixel without weight holds besides zero weight does not
            # matter unless it was copied
            m = np.ones(a.size, bool) if k in ('ivar', 'weight') \
                or e['copy'] else good
            at = 1e-9 * (np.max(np.abs(b)) if b.size else 0)
            bad = m & ~(np.abs(a - b) <= 1e-9 * np.abs(b) + at)
            if bad.any():
                i = int(np.nonzero(bad)[0][0])
                v.append((k, f"{who}: {k}[{i}] = {a[i]:.9g}, expected "
                          f"{b[i]:.9g}"))
            if not np.all(np.isfinite(a)):
                v.append((k, f"{who}: {k} is not finite"))
        if (x.reso is None) != (e['reso'] is None):
            v.append(('reso', f"{who}: resolution matrix "
                      f"{'missing' if x.reso is None else 'extra'}"))
        elif x.reso is not None:
            if x.reso.shape != e['reso'].shape:
                v.append(('reso', f"{who}: shape {x.reso.shape}, expected "
                          f"{e['reso'].shape}"))
            else:
                if not np.all(np.isfinite(x.reso)):
                    v.append(('reso', f"{who}: not finite"))
                c = e['cover'] & (good | e['copy'])
                if not np.allclose(x.reso[c], e['reso'][c], rtol=1e-6,
                                   atol=1e-9):
                    v.append(('reso', f"{who}: resolution matrix differs"))
        if e['copy'] or e.get('anygood'):
            if not abs(float(x.hdr['MEANSNR']) - e['snr']) <= 1e-8 * (
                    1 + abs(e['snr'])):
                v.append(('snr', f"{who}: MEANSNR {x.hdr['MEANSNR']}, "
                          f"expected {e['snr']}"))
        for k, b in e['hdr'].items():
            if k == 'MEANSNR':
                continue
            a = x.hdr.get(k)
            if a is None or (abs(a - b) > 1e-9 * abs(b) if isinstance(
                    b, float) else a != b):
                v.append(('header', f"{who}: {k} = {a!r}, expected {b!r}"))
        return v
