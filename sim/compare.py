"""Compare the outputs of two runs."""
import numpy as np

from .outputs import FitOut, read_tables


class Tol:
    def __init__(self, rtol=1e-9, atol=1e-12):
        self.rtol, self.atol = rtol, atol
        self.worst = 0.0
        self.where = ''

    def __call__(self, a, b, where=''):
        """True if arrays agree; scale is the largest magnitude."""
        a = np.asarray(a, dtype='f8')
        b = np.asarray(b, dtype='f8')
        if a.shape != b.shape:
            return False
        na, nb = ~np.isfinite(a), ~np.isfinite(b)
        if np.any(na != nb):
            return False
        ok = ~na
        if not ok.any():
            return True
        d = np.abs(a[ok] - b[ok])
        s = np.abs(b[ok]) + np.median(np.abs(b[ok]))
        rel = float(np.max(d / (s + 1e-30)))
        if d.max() <= self.atol:
            return True
        if rel > self.worst:
            self.worst, self.where = rel, where
        return rel <= self.rtol


def _hdr(d, skip=()):
    out = {}
    for k, v in d.hdr.items():
        if k in ('XTENSION', 'BITPIX', 'EXTNAME', 'CHECKSUM', 'DATASUM') \
                or k.startswith(('NAXIS', 'TTYPE', 'TFORM', 'TDIM', 'PCOUNT',
                                 'GCOUNT', 'TFIELDS', 'COMMENT', 'HISTORY',
                                 'TUNIT', 'TNULL')) or k in skip:
            continue
        out[k] = v
    return out


def cmp_deltas(A, B, tol, same_files=True, skip_hdr=(), soft=()):
    """A: deltas of the run under test, B: of the reference."""
    out = []
    ga, gb = {}, {}
    for L, g in ((A, ga), (B, gb)):
        for d in L:
            g.setdefault(d.key(), []).append(d)
    for k in sorted(set(ga) | set(gb), key=str):
        if k[0] in soft:
            continue
        x, y = ga.get(k, []), gb.get(k, [])
        if len(x) != len(y):
            out.append(('delta-set', f"delta {k}: {len(x)} saved, "
                        f"reference has {len(y)}"))
            continue
        x.sort(key=lambda d: (d.file, float(np.sum(d.ivar))))
        y.sort(key=lambda d: (d.file, float(np.sum(d.ivar))))
        for a, b in zip(x, y):
            if same_files and a.file != b.file:
                out.append(('delta-file', f"delta {k} is in {a.file}, "
                            f"reference {b.file}"))
            if a.names != b.names:
                out.append(('delta-columns', f"delta {k}: {a.names} != "
                            f"{b.names}"))
                continue
            for c in ('wave', 'delta', 'ivar', 'weight', 'cont', 'reso'):
                u, v = getattr(a, c), getattr(b, c)
                if (u is None) != (v is None):
                    out.append(('delta-value', f"delta {k}: {c} missing"))
                    continue
                if u is None:
                    continue
                if c == 'cont' and u.shape == v.shape:
                    g = (b.ivar > 0) | (a.ivar > 0)
                    u, v = u[g], v[g]
                if not tol(u, v, f'{c} {k}'):
                    out.append(('delta-value', f"delta {k}: {c} differs, "
                                f"{_where(u, v)}"))
            ha, hb = _hdr(a, skip_hdr), _hdr(b, skip_hdr)
            for h in sorted(set(ha) | set(hb)):
                p, q = ha.get(h), hb.get(h)
                if isinstance(p, float) and isinstance(q, (int, float)):
                    if not tol([p], [q], f'{h} {k}'):
                        out.append(('delta-header', f"delta {k}: {h} {p} != "
                                    f"{q}"))
                elif p != q:
                    out.append(('delta-header', f"delta {k}: {h} {p!r} != "
                                f"{q!r}"))
    return out


def _where(u, v):
    u, v = np.asarray(u), np.asarray(v)
    if u.dtype.kind == 'b':
        u, v = u.astype(int), v.astype(int)
    if u.shape != v.shape:
        return f"shapes {u.shape} and {v.shape}"
    d = np.abs(np.nan_to_num(u) - np.nan_to_num(v))
    i = np.unravel_index(int(np.argmax(d)), d.shape)
    return f"at {i}: {u[i]!r} != {v[i]!r}"


def cmp_table(name, a, b, tol, key=None, skip=()):
    out = []
    if (a is None) != (b is None):
        return [('table-shape', f"{name} is "
                 f"{'missing' if a is None else 'extra'}")]
    if a is None:
        return []
    if sorted(a.dtype.names) != sorted(b.dtype.names):
        return [('table-shape', f"{name}: columns {a.dtype.names} != "
                 f"{b.dtype.names}")]
    if a.size != b.size:
        return [('table-shape', f"{name}: {a.size} rows, reference {b.size}")]
    if key:
        a = a[np.lexsort([np.round(a[k], 6) if a[k].dtype.kind == 'f'
                          else a[k] for k in key[::-1]])]
        b = b[np.lexsort([np.round(b[k], 6) if b[k].dtype.kind == 'f'
                          else b[k] for k in key[::-1]])]
    for c in a.dtype.names:
        if c in skip:
            continue
        if a[c].dtype.kind in 'f':
            if not tol(a[c], b[c], f'{name}.{c}'):
                out.append(('table', f"{name}.{c} differs, "
                            f"{_where(a[c], b[c])}"))
        elif a[c].dtype.kind in 'SU':
            if [str(x) for x in a[c]] != [str(x) for x in b[c]]:
                out.append(('table', f"{name}.{c} differs"))
        elif np.any(a[c] != b[c]):
            out.append(('table', f"{name}.{c} differs, "
                        f"{_where(a[c], b[c])}"))
    return out


def cmp_tables(fa, fb, tol, what):
    """Two lists of (ext, header, table)."""
    if (fa is None) != (fb is None):
        return [('table-shape', f"{what} is "
                 f"{'missing' if fa is None else 'extra'}")]
    if fa is None:
        return []
    na, nb = [x[0] for x in fa], [x[0] for x in fb]
    if na != nb:
        return [('table-shape', f"{what}: extensions {na} != {nb}")]
    out = []
    for x, y in zip(fa, fb):
        out += cmp_table(f'{what}[{x[0]}]', x[2], y[2], tol)
    return out


def cmp_fit(A, B, tol, same_n=True, soft=(), skip=()):
    """Outputs of two fits (directories or FitOut)."""
    if not isinstance(A, FitOut):
        A = FitOut(A)
    if not isinstance(B, FitOut):
        B = FitOut(B)
    out = []
    for b, m in A.unreadable:
        if b not in [x[0] for x in B.unreadable]:
            out.append(('unreadable', f"{b}: {m}"))
    if same_n and A.files != B.files:
        out.append(('file-set', f"files {A.files} != {B.files}"))
    out += cmp_deltas(A.deltas, B.deltas, tol, same_files=same_n, soft=soft)
    out += cmp_table('chi2 catalog', A.chi2, B.chi2, tol,
                     key=('TARGETID', 'RSNR'),
                     skip=tuple(skip) + (() if same_n else ('MPI_RANK',)))
    out += cmp_tables(A.attr, B.attr, tol, 'attributes')
    return out


def cmp_calib(fa, fb, tol):
    import os
    na, nb = sorted(os.listdir(fa)), sorted(os.listdir(fb))
    if na != nb:
        return [('file-set', f"files {na} != {nb}")]
    out = []
    for f in na:
        out += cmp_tables(read_tables(os.path.join(fa, f)),
                          read_tables(os.path.join(fb, f)), tol, f)
    return out
