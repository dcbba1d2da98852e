"""Global statistics equal the sum over all processes.

Histories of add / read / fit / reset on the objects that gather survey-wide
statistics, the same collective calls on every process, different spectra on
each, under a random schedule.
"""
import numpy as np

from sim import gen
from sim.calcase import var_func_check
from sim.oracle import close

ID = 'C11'
MINPIX, MINQSO = 4, 2


def case(r, i, tier):
    n = r.choice([1, 2, 2, 3, 3, 4, 5, 6])
    kinds = r.choice([['var'], ['var'], ['flux'], ['sub'], ['sub'],
                      ['var', 'flux'], ['var', 'flux', 'sub'],
                      ['sub', 'sub']])
    objs = []
    for k in kinds:
        o = dict(kind=k, comm=r.random() < .85)
        if k == 'var':
            o.update(nw=r.randint(3, 7), nv=r.randint(5, 9),
                     ns=r.choice([None, 600, 600, 40, 7, 3]),
                     cov=r.random() < .3)
        elif k == 'flux':
            o.update(nw=r.randint(3, 60), nrf=r.randint(3, 40))
        else:
            o.update(nset=r.choice([0, 1, 3]), nd=r.choice([4, 6, 12]),
                     ns=r.choice([2, 3, 8, 60, 60, 200]),
                     bias=r.random() < .3)
        objs.append(o)
    hist = []
    for ep in range(r.randint(1, 4)):
        for j, o in enumerate(objs):
            if r.random() < .15:
                continue
            hist.append(epoch(r, n, j, o))
    # epochs of different objects overlap
    ops = weave(r, hist)
    return dict(n=n, objs=objs, ops=ops, data=r.randrange(1 << 30),
                seed=r.randrange(1 << 40), policy=r.choice(gen.POLICIES))


def epoch(r, n, j, o):
    e = []
    if o['kind'] == 'flux' or r.random() < .9:
        e.append(dict(op='reset', o=j))
    tot = r.choice([0, 1, 2, 5, 12, 40])
    if o['kind'] == 'var' and r.random() < .6:
        tot = r.randint(40, 90)
    who = r.sample(range(n), r.randint(1, n))
    cnt = [0] * n
    for _ in range(tot):
        cnt[r.choice(who)] += 1
    k = r.randint(1, 3)
    left = list(cnt)
    for q in range(k):
        part = [x if q == k - 1 else r.randint(0, x) for x in left]
        left = [a - b for a, b in zip(left, part)]
        e.append(dict(op='add', o=j, cnt=part))
    reads = {'var': ['stats', 'stats', 'fit1', 'fit2', 'write'],
             'flux': ['calc'],
             'sub': ['mean', 'var', 'cov', 'block']}[o['kind']]
    if o['kind'] == 'sub' and o['bias']:
        reads = ['var', 'cov', 'block']
    if r.random() < .12:
        return e                     # never read: reset throws it away
    if o['kind'] == 'flux':
        e.append(dict(op='calc', o=j))
        e.append(dict(op='look', o=j))
        return e
    fits = 0
    for _ in range(r.randint(1, 3)):
        x = r.choice(reads)
        if x in ('fit1', 'fit2'):
            if fits:
                continue
            fits += 1
        e.append(dict(op=x, o=j))
    if r.random() < .5:
        e.append(dict(op='late', o=j, cnt=[r.randint(0, 2)
                                           for _ in range(n)]))
        e.append(dict(op=r.choice([x for x in reads
                                   if x not in ('fit1', 'fit2')]), o=j))
    return e


def weave(r, hist):
    """Merge the epochs; those of one object keep their order."""
    q = {}
    for e in hist:
        if e:
            q.setdefault(e[0]['o'], []).extend(e)
    out = []
    while q:
        k = r.choice(sorted(q))
        out.append(q[k].pop(0))
        if not q[k]:
            del q[k]
    return out


# -- data --------------------------------------------------------------------
W1, W2 = 3600., 4500.
V1, V2 = 5e-3, 10.


def spectrum(case, o, rank, i):
    """Spectrum i of a process; no value near a bin edge."""
    g = np.random.default_rng([case['data'], rank, i])
    if o['kind'] == 'var':
        n = int(g.integers(20, 120))
        # some spectra reach beyond the wavelength range
        x = 3 * (g.random() < .3)
        k = np.sort(g.integers(-x, o['nw'] + x, n))
        wave = W1 + (W2 - W1) / o['nw'] * (k + g.uniform(.02, .98, n))
        le = np.linspace(-np.log10(V2), -np.log10(V1), o['nv'] + 1)
        b = np.clip(g.integers(0, o['nv']) + g.integers(-2, 3, n), -1,
                    o['nv'])
        iv = 10**(le[0] + (le[1] - le[0]) * (b + g.uniform(.02, .98, n)))
        iv[g.random(n) < .05] = 0
        var = np.where(iv > 0, 1 / np.where(iv > 0, iv, 1), 0)
        d = g.normal(size=n) * np.sqrt(.1 + .8 * var) + g.normal() * .1
        d[iv == 0] = 0
        return wave, d, iv
    if o['kind'] == 'flux':
        n = int(g.integers(1, 80))
        k = np.sort(g.integers(0, o['nw'], n))
        wave = W1 + (W2 - W1) / o['nw'] * (k + g.uniform(.02, .98, n))
        k = np.sort(g.integers(0, o['nrf'], n))
        wrf = RF0 + DRF * (k + g.uniform(-.48, .48, n))
        w = g.uniform(0, 3, n)
        w[g.random(n) < .2] = 0
        return (wave, np.abs(wrf), w * g.normal(1, .3, n),
                w * g.normal(2, .3, n), w)
    w = g.uniform(.2, 3, o['nd'])
    w[g.random(o['nd']) < .25] = 0
    x = g.normal(1, .5, (max(1, o['nset']), o['nd'])) * w
    return (x[0] if o['nset'] == 0 else x), w


RF0, DRF = 1040., 1.5


def build(o, comm, rank, n):
    from qsonic import mathtools, picca_continuum as pc
    pc.VarLSSFitter.min_num_pix = MINPIX
    pc.VarLSSFitter.min_num_qso = MINQSO
    c = comm if o['comm'] else None
    if o['kind'] == 'var':
        return pc.VarLSSFitter(
            W1, W2, nwbins=o['nw'], var1=V1, var2=V2, nvarbins=o['nv'],
            nsubsamples=o['ns'], use_cov=o['cov'], comm=c)
    if o['kind'] == 'flux':
        return pc.FluxStacker(W1, W2, (W2 - W1) / o['nw'],
                              RF0 + DRF * np.arange(o['nrf']), DRF, comm=c)
    nd = o['nd'] if o['nset'] == 0 else (o['nset'], o['nd'])
    ist = rank * o['ns'] // n if o['comm'] else 0
    return mathtools.SubsampleCov(nd, o['ns'], ist)


class Sink:
    def write(self, data, names=None, extname=None, header=None):
        self.t = dict(zip(names, data))


def snap_var(x, o):
    d = {k: np.array(getattr(x, k)) for k in
         ('num_pixels', 'num_qso', 'mean_delta', 'var_delta', 'var2_delta',
          'var_centers', 'e_var_delta', 'e_var_centers')}
    if o['cov']:
        d['cov'] = np.array(x.cov_var_delta)
    return d


def work(case, rank, comm):
    from mpi4py import MPI
    from qsonic import QsonicException
    n = comm.Get_size()
    objs = [build(o, comm, rank, n) for o in case['objs']]
    nxt = [0] * len(objs)
    red = [False] * len(objs)
    out = []
    for op in case['ops']:
        j = op['o']
        o, x = case['objs'][j], objs[j]
        k = op['op']
        res = None
        if k == 'reset':
            x.reset()
            red[j] = False
        elif k in ('add', 'late'):
            res = []
            for _ in range(op['cnt'][rank]):
                s = spectrum(case, o, rank, nxt[j])
                nxt[j] += 1
                try:
                    (x.add_measurement if o['kind'] == 'sub' else x.add)(*s)
                    res.append('ok')
                except RuntimeError as e:
                    res.append(type(e).__name__)
        elif o['kind'] == 'var':
            if k == 'stats':
                x.calculate_subsampler_stats()
                res = snap_var(x, o)
            elif k == 'write':
                x.calculate_subsampler_stats()
                s = Sink()
                x.write(s)
                res = {a: np.array(b) for a, b in s.t.items()}
            else:
                g = np.full(o['nw'], .1)
                if k == 'fit2':
                    g = np.column_stack((g, np.ones(o['nw'])))
                try:
                    y, e = x.fit(g)
                    res = dict(snap_var(x, o), fit=np.array(y),
                               std=np.array(e))
                except QsonicException as e:
                    res = dict(snap_var(x, o), error=str(e))
                except Exception as e:
                    if 'fpcurf0' not in str(e) and 'k' not in str(e):
                        raise
                    # too few fitted bins for the spline
                    res = dict(snap_var(x, o), error=str(e))
        elif o['kind'] == 'flux':
            if k == 'calc':
                x.calculate()
            else:
                w = x.waveobs[:1]
                res = dict(f=np.array(x.stacked_flux), w=np.array(x.weights),
                           rf=np.array(x.stacked_flux_rf),
                           srf=np.array(x.std_flux_rf), call=np.array(x(w)))
        else:
            if o['comm'] and not red[j]:
                x.allreduce(comm, MPI.IN_PLACE)
                red[j] = True
            b = dict(bias_correct=o['bias'])
            if k == 'mean':
                res = dict(mean=np.array(x.get_mean()))
            elif k == 'var':
                m, v = x.get_mean_n_var(**b)
                res = dict(mean=np.array(m), var=np.array(v))
            else:
                kw = dict(b)
                if k == 'block':
                    kw['blockdim'] = o['nd'] // 2
                m, v = x.get_mean_n_cov(**kw)
                res = dict(mean=np.array(m), cov=[np.array(c) for c in v])
        out.append(res)
    return out


# -- expectation -------------------------------------------------------------
def jack(X, W, ns, bias):
    """X: list of weighted (nset, nd), W: list of (nd,), one per subsample;
    the other subsamples are empty."""
    N = np.sum(W, axis=0)
    with np.errstate(divide='ignore', invalid='ignore'):
        mean = np.where(N > 0, np.sum(X, axis=0) / N, 0)
        J = []
        for x, w in zip(X, W):
            f = np.where(N > 0, w / N, 0)
            m = np.where(w > 0, x / w, 0)
            J.append((mean - m * f) / (1 - f + np.finfo(float).eps))
    J += [mean] * (ns - len(J))
    J = np.array(J)
    mj = J.mean(axis=0)
    d = J - mj
    if bias:
        mean = mean - (ns - 1) * (mj - mean)
    return mean, d, np.einsum('ijk,ijk->jk', d, d) * (ns - 1) / ns


class Model:
    def __init__(self, case, j, n, rank):
        """rank: the only process that counts without a communicator."""
        self.case, self.j, self.o = case, j, case['objs'][j]
        self.n, self.rank = n, rank
        self.nxt = [0] * n
        self.reset()

    def reset(self):
        self.s = []
        self.cnt = [0] * self.n
        self.read = False

    def ranks(self):
        return range(self.n) if self.o['comm'] else [self.rank]

    def add(self, cnt):
        for r in range(self.n):
            for _ in range(cnt[r]):
                if r in self.ranks():
                    self.s.append((r, spectrum(self.case, self.o, r,
                                               self.nxt[r])))
                    self.cnt[r] += 1
                self.nxt[r] += 1

    def late(self, cnt):
        for r in range(self.n):
            self.nxt[r] += cnt[r]

    def groups(self, ns, X, W):
        """Sums over each subsample: a process fills them in turn from its own
        start index, wrapping around."""
        n = self.n if self.o['comm'] else 1
        k = [0] * self.n
        gx, gw = {}, {}
        for (r, _), x, w in zip(self.s, X, W):
            i = ((r * ns // n if self.o['comm'] else 0) + k[r]) % ns
            k[r] += 1
            gx[i] = gx.get(i, 0) + x
            gw[i] = gw.get(i, 0) + w
        return [gx[i] for i in sorted(gx)], [gw[i] for i in sorted(gw)]


def check(tag, name, got, ex, out, rt=1e-9, at=1e-11):
    got, ex = np.asarray(got), np.asarray(ex)
    if got.shape != ex.shape:
        out.append(('shape', f"{tag}: {name} has shape {got.shape}, "
                    f"expected {ex.shape}"))
        return
    m = ~close(got, ex, rt, at)
    if np.any(m):
        i = tuple(int(x[0]) for x in np.nonzero(m))
        out.append(('sum', f"{tag}: {name}{list(i)} = {got[i]:.10g}, all "
                    f"spectra together give {ex[i]:.10g}"))


def judge_var(M, k, got, tag):
    o, out = M.o, []
    nw, nv = o['nw'], o['nv']
    le = np.logspace(-np.log10(V2), -np.log10(V1), nv + 1)
    X, N = [], []
    for _, (wave, d, iv) in M.s:
        a = np.floor((wave - W1) / ((W2 - W1) / nw)).astype(int)
        b = np.searchsorted(le, iv) - 1
        ok = (b >= 0) & (b < nv) & (a >= 0) & (a < nw)
        idx = (a[ok] * nv + b[ok])
        d, var = d[ok], 1 / iv[ok]
        N.append(np.bincount(idx, minlength=nw * nv).astype(float))
        X.append([np.bincount(idx, weights=y, minlength=nw * nv)
                  for y in (d, d**2, d**4, var)])
    Z = np.zeros(nw * nv)
    X = np.array(X).reshape(len(X), 4, nw * nv)
    num = np.sum(N, axis=0) + Z
    nq = sum(((x > 0).astype(int) for x in N), Z.astype(int))
    if k == 'write':
        names = dict(num_pixels='num_pixels', num_qso='num_qso',
                     mean_delta='mean_delta', var_delta='var_delta',
                     var2_delta='var2_delta', var_centers='var_pipe',
                     e_var_delta='e_var_delta', e_var_centers='e_var_pipe')
        got = {a: got[b] for a, b in names.items()}
    if np.any(got['num_pixels'] != num):
        i = int(np.nonzero(got['num_pixels'] != num)[0][0])
        out.append(('count', f"{tag}: {got['num_pixels'][i]} pixels in bin "
                    f"{i}, all spectra together have {int(num[i])}"))
    if np.any(got['num_qso'] != nq):
        i = int(np.nonzero(got['num_qso'] != nq)[0][0])
        out.append(('count', f"{tag}: {got['num_qso'][i]} spectra in bin "
                    f"{i}, all together have {int(nq[i])}"))
    c = np.where(num > 0, num, 1)
    m = [X[:, q].sum(axis=0) / c if len(X) else Z for q in range(4)]
    var = m[1] - m[0]**2
    v2 = (m[2] - var**2) / c
    check(tag, 'mean_delta', got['mean_delta'], m[0], out)
    check(tag, 'var_delta', got['var_delta'], var, out, at=1e-9)
    check(tag, 'var2_delta', got['var2_delta'], v2, out, rt=1e-8, at=1e-9)
    check(tag, 'var_centers', got['var_centers'], m[3], out)
    ns = o['ns'] or nv**2
    if len(X):
        _, d, jv = jack(*M.groups(ns, X, N), ns, False)
        check(tag, 'e_var_centers', got['e_var_centers'], np.sqrt(jv[3]),
              out, rt=1e-5, at=1e-7)
        if not o['cov']:
            e = jv[1] + 4 * m[0]**2 * jv[0] + 2 * jv[0]**2
            check(tag, 'e_var_delta', got['e_var_delta'],
                  np.sqrt(np.maximum(e, v2)), out, rt=1e-5, at=1e-7)
    if 'fit' in got and got['fit'].ndim == 2 and not out:
        t = dict(num_pixels=got['num_pixels'], num_qso=got['num_qso'],
                 e_var_delta=got['e_var_delta'], var_pipe=got['var_centers'],
                 var_delta=got['var_delta'])
        dt = [(a, b.dtype) for a, b in t.items()]
        if o['cov']:
            dt.append(('cov_var_delta', 'f8', (nv,)))
            t['cov_var_delta'] = got['cov'].reshape(nw * nv, nv)
        T = np.zeros(nw * nv, dtype=dt)
        for a in t:
            T[a] = t[a]
        w = W1 + (W2 - W1) / nw * (np.arange(nw) + .5)
        f = {'lambda': w, 'var_lss': got['fit'][:, 0],
             'eta': got['fit'][:, 1], 'e_var_lss': got['std'][:, 0],
             'e_eta': got['std'][:, 1]}
        out += [(a, f"{tag}: {b}") for a, b in var_func_check(
            f, T, dict(NWBINS=nw, NVARBINS=nv, MINNPIX=MINPIX,
                       MINNQSO=MINQSO))]
    return out


def judge_flux(M, got, tag):
    o, out = M.o, []
    a, b = np.zeros(o['nw']), np.zeros(o['nw'])
    c, d = np.zeros(o['nrf']), np.zeros(o['nrf'])
    for _, (wave, wrf, wf, wc, w) in M.s:
        i = ((wave - W1) / ((W2 - W1) / o['nw'])).astype(int)
        np.add.at(a, i, wf)
        np.add.at(b, i, w)
        i = np.round((wrf - RF0) / DRF).astype(int)
        np.add.at(c, i, wc)
        np.add.at(d, i, w)
    p, q = b > 0, d > 0
    check(tag, 'stacked_flux', got['f'], np.where(
        p, a / np.where(p, b, 1), 0), out)
    check(tag, 'weights', got['w'], b, out)
    check(tag, 'stacked_flux_rf', got['rf'], np.where(
        q, c / np.where(q, d, 1), 0), out)
    check(tag, 'std_flux_rf', got['srf'], np.where(
        q, 1 / np.sqrt(np.where(q, d, 1)), 0), out)
    check(tag, 'value at the first bin', got['call'][0], got['f'][0], out)
    return out


def judge_sub(M, k, got, tag):
    o, out = M.o, []
    n1 = max(1, o['nset'])
    X = [np.reshape(x, (n1, o['nd'])) for _, (x, w) in M.s]
    W = [w for _, (x, w) in M.s]
    X, W = M.groups(o['ns'], X, W)
    if not X:
        X, W = [np.zeros((n1, o['nd']))], [np.zeros(o['nd'])]
    mean, d, v = jack(X, W, o['ns'], o['bias'] and k != 'mean')
    check(tag, 'mean', got['mean'], mean, out, rt=1e-8, at=1e-9)
    if k == 'var':
        check(tag, 'variance', got['var'], v, out, rt=1e-6, at=1e-9)
    elif k in ('cov', 'block'):
        f = (o['ns'] - 1) / o['ns']
        for s in range(n1):
            C = d[:, s].T @ d[:, s] * f
            if k == 'block':
                h = o['nd'] // 2
                C = np.array([C[:h, :h], C[h:, h:]])
            check(tag, f'covariance {s}', got['cov'][s], C, out, rt=1e-6,
                  at=1e-9)
    return out


def same(a, b):
    if isinstance(a, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and bool(np.all(
            close(a, b, 1e-12, 1e-14) | (np.isnan(a) & np.isnan(b))))
    return a == b


def judge(case, ctx):
    n = case['n']
    r = ctx.run_fn('main', lambda rank, comm: work(case, rank, comm), n)
    if not r.ok:
        return [('run-fails', r.describe())]
    res = [p.result for p in r.kernel.procs]
    out = []
    models = [[Model(case, j, n, k) for k in range(n)]
              for j in range(len(case['objs']))]
    for q, op in enumerate(case['ops']):
        j, k = op['o'], op['op']
        o = case['objs'][j]
        got = [x[q] for x in res]
        tag = f"step {q}, {k} on {desc(o)}"
        ctx.note(f"{o['kind']}-{k}")
        if k in ('add', 'late'):
            k = 'late' if models[j][0].read else 'add'
            exp = 'ok' if k == 'add' else 'RuntimeError'
            for rk in range(n):
                if got[rk] != [exp] * op['cnt'][rk]:
                    out.append(('refusal', f"{tag}: adding on process {rk} "
                                f"gives {got[rk]}, expected {exp}"))
        for rk in range(n):
            M = models[j][rk]
            if k == 'reset':
                M.reset()
            elif k == 'add':
                M.add(op['cnt'])
            elif k == 'late':
                M.late(op['cnt'])
        if k in ('reset', 'add', 'late', 'calc'):
            continue
        for M in models[j]:
            M.read = True
        if o['comm']:
            for rk in range(1, n):
                if not same(got[0], got[rk]):
                    out.append(('not-identical', f"{tag}: processes 0 and "
                                f"{rk} hold different values"))
                    break
        for rk in range(n):
            M = models[j][rk]
            t = tag + f", process {rk} of {n}"
            if o['kind'] == 'var':
                out += judge_var(M, k, got[rk], t)
            elif o['kind'] == 'flux':
                out += judge_flux(M, got[rk], t)
            else:
                out += judge_sub(M, k, got[rk], t)
            if o['comm']:
                break          # identical on the others
        if out:
            break
    return out[:5]


def desc(o):
    return {'var': 'VarLSSFitter', 'flux': 'FluxStacker',
            'sub': 'SubsampleCov'}[o['kind']] + (
                '' if o['comm'] else ' without communicator')


def reduce(case):
    import copy
    for i in range(len(case['ops'])):
        c = copy.deepcopy(case)
        del c['ops'][i]
        if valid(c):
            yield c
    for i, op in enumerate(case['ops']):
        for rk, x in enumerate(op.get('cnt', [])):
            for y in sorted({0, x // 2, x - 1}):
                if 0 <= y < x:
                    c = copy.deepcopy(case)
                    c['ops'][i]['cnt'][rk] = y
                    yield c
    if case['n'] > 1:
        c = copy.deepcopy(case)
        c['n'] -= 1
        for op in c['ops']:
            if 'cnt' in op:
                op['cnt'].pop()
        yield c


def valid(c):
    """Histories within the documented use."""
    st = {}
    for op in c['ops']:
        j, k = op['o'], op['op']
        kind = c['objs'][j]['kind']
        s = st.get(j, 'new')
        if k == 'reset':
            s = 'open'
        elif k == 'add':
            if kind == 'flux' and s != 'open':
                return False
            if s == 'new':
                s = 'open'
        elif k == 'late':
            if kind == 'flux':
                return False
        elif k == 'calc':
            if s != 'open':
                return False
            s = 'read'
        elif kind == 'flux':
            if s != 'read':
                return False
        else:
            s = 'read'
        st[j] = s
    return True
