"""Properties decided on fault-free fit runs against the reference model."""
import os

from sim import fitcase


def judge_fit(case, ctx, methods, minimality=True, post=None):
    S = fitcase.Setup(ctx, case)
    r = S.run('main', 'out')
    v = fitcase.fault_free_failure(r, case, S)
    if v:
        return v
    F = S.oracle('out')
    out = []
    for m in methods:
        if m == 'continua':
            out += F.continua(minimality)
        else:
            out += getattr(F, m)()
    for k, n in F.notes.items():
        ctx.note(k, n)
    ctx.note('spectra', len(F.match()))
    ctx.note('deltas', len(F.out.deltas))
    if post:
        out += post(S, r, F)
    return out


def output_writers(r, out='out'):
    """file name -> set of process numbers that opened it for writing."""
    w = {}
    for path, pids in r.kernel.writers.items():
        if path.startswith(out + '/'):
            w.setdefault(path[len(out) + 1:], set()).update(pids)
    return w


def single_writers(S, r, F):
    out = []
    W = output_writers(r)
    for f, pids in sorted(W.items()):
        if len(pids) > 1:
            out.append(('two-writers', f"{f} is written by processes "
                        f"{sorted(pids)}"))
    # the chi2 catalog names the process that fitted (and saved) a quasar
    rank = {}
    for s in F.match():
        rank.setdefault(s.spec.q['tid'], set()).add(int(s.row['MPI_RANK']))
    if S.W.P['fmt'] != 'tile':
        for d in F.out.deltas:
            if d.file in W and d.tid in rank and len(W[d.file]) == 1 and \
                    not W[d.file] <= rank[d.tid]:
                out.append(('chi2-rank', f"{d.tid} was saved by process "
                            f"{sorted(W[d.file])}, the catalog says "
                            f"{sorted(rank[d.tid])}"))
    return out


def master_only(S, r, F):
    out = []
    W = output_writers(r)
    for f in ('attributes.fits', 'continuum_chi2_catalog.fits'):
        p = W.get(f, set())
        if p and p != {0}:
            out.append(('not-master', f"{f} is written by processes "
                        f"{sorted(p)}"))
    return out


__all__ = ['judge_fit', 'single_writers', 'master_only', 'os']
