"""Stand-in for numba, which is not installed in this sandbox.

njit/jit run the decorated function as plain Python.  When an explicit
signature string is given, array arguments are checked against it the way
numba's dispatcher would (a float32 array passed to an ``f8[:]`` argument is a
TypeError), so that code which would be rejected by the real library is not
silently accepted here.
"""
import functools
import re

import numpy as _np

__version__ = "0.0-verif-stub"

_KINDS = {
    'f8': _np.dtype('f8'), 'float64': _np.dtype('f8'), 'double': _np.dtype('f8'),
    'f4': _np.dtype('f4'), 'float32': _np.dtype('f4'),
    'i8': _np.dtype('i8'), 'int64': _np.dtype('i8'), 'intp': _np.dtype('i8'),
    'i4': _np.dtype('i4'), 'int32': _np.dtype('i4'),
    'u8': _np.dtype('u8'), 'uint64': _np.dtype('u8'),
    'b1': _np.dtype('?'), 'boolean': _np.dtype('?'), 'bool_': _np.dtype('?'),
}


def _split_args(text):
    out, depth, cur = [], 0, ''
    for ch in text:
        if ch in '([':
            depth += 1
        elif ch in ')]':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    return [o.strip() for o in out]


def _parse_one(sig):
    m = re.match(r'^\s*[^()]*\((.*)\)\s*$', sig, re.S)
    if not m:
        return None
    spec = []
    for a in _split_args(m.group(1)):
        m2 = re.match(r'^(\w+)\s*(\[(.*)\])?$', a)
        if not m2 or m2.group(1) not in _KINDS:
            spec.append(None)
        elif m2.group(2) is None:
            spec.append((_KINDS[m2.group(1)], 0))
        else:
            spec.append((_KINDS[m2.group(1)], m2.group(3).count(',') + 1))
    return spec


def _matches(spec, args):
    if spec is None:
        return True
    if len(spec) != len(args):
        return False
    for s, a in zip(spec, args):
        if s is None:
            continue
        dt, nd = s
        if nd == 0:
            if isinstance(a, _np.ndarray) and a.ndim > 0:
                return False
            if dt.kind in 'iu' and isinstance(a, (float, _np.floating)):
                # numba would truncate with an unsafe cast -> no match
                return False
        else:
            if not isinstance(a, _np.ndarray):
                return False
            if a.ndim != nd or a.dtype != dt or not a.dtype.isnative:
                return False
    return True


def _wrap(fn, sigs):
    specs = [_parse_one(s) for s in sigs if isinstance(s, str)]

    @functools.wraps(fn)
    def inner(*args, **kwargs):
        if specs and not kwargs and not any(_matches(s, args) for s in specs):
            raise TypeError(
                f"No matching definition for argument type(s) in {fn.__name__}"
                f" for {[getattr(a, 'dtype', type(a)) for a in args]}")
        return fn(*args, **kwargs)
    inner.py_func = fn
    return inner


def njit(*dargs, **dkw):
    if len(dargs) == 1 and callable(dargs[0]) and not dkw:
        return _wrap(dargs[0], [])
    sigs = []
    for a in list(dargs) + [dkw.get('signature_or_function')]:
        if isinstance(a, str):
            sigs.append(a)
        elif isinstance(a, (list, tuple)):
            sigs.extend(a)

    def deco(fn):
        return _wrap(fn, sigs)
    return deco


jit = njit
vectorize = None


def vectorize(*dargs, **dkw):          # noqa: F811
    def deco(fn):
        return _np.vectorize(fn)
    if len(dargs) == 1 and callable(dargs[0]):
        return deco(dargs[0])
    return deco


def guvectorize(*a, **k):
    raise NotImplementedError("numba stub")


prange = range
float64, float32, int64, int32 = _np.float64, _np.float32, _np.int64, _np.int32
