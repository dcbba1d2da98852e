"""Pick concrete fault points from the events of an undisturbed run."""
from .kernel import IO_KINDS

FAULTABLE = tuple(k for k in IO_KINDS if k != 'list')
WRITES = ('open-w', 'write', 'close-w', 'pyopen-w', 'mkdir')


def events(r, kinds=FAULTABLE, ranks=None, prefix=None, ops=None):
    """[(pid, nev, kind, path)] of a finished run."""
    out = []
    for step, pid, nev, kind, path in r.kernel.log:
        if kinds is not None and kind not in kinds:
            continue
        if ranks is not None and pid not in ranks:
            continue
        if prefix is not None and not path.startswith(prefix):
            continue
        out.append((pid, nev, kind, path))
    return out


def pick(evs, u):
    """Element at fraction u of a list."""
    return evs[min(len(evs) - 1, int(u * len(evs)))] if evs else None


def balanced(evs, u, v):
    """Fraction u chooses among distinct (process, file, operation) classes,
    v among the events of that class; rare files are hit as often as the
    frequent ones."""
    cl = {}
    for e in evs:
        p = ''.join('#' if c.isdigit() else c for c in e[3])
        cl.setdefault((e[2], p), []).append(e)
    keys = sorted(cl)
    if not keys:
        return None
    return pick(cl[pick(keys, u)], v)
