"""Turn any object into plain comparable data without knowing its class."""
import types

import numpy as np


def canon(x, depth=0):
    if depth > 12:
        return '...'
    if x is None or isinstance(x, (bool, str, bytes)):
        return (type(x).__name__, x)
    if isinstance(x, (int, np.integer)):
        return ('int', int(x))
    if isinstance(x, (float, np.floating)):
        return ('float', 'nan' if x != x else float(x))
    if isinstance(x, np.ndarray):
        if x.dtype.names:
            return ('rec', tuple(sorted(x.dtype.names)), x.shape,
                    tuple((n, canon(np.array(x[n]), depth + 1))
                          for n in sorted(x.dtype.names)))
        if x.dtype == object:
            return ('objs', tuple(canon(v, depth + 1) for v in x.ravel()))
        if x.dtype.kind in 'SU':
            return ('strs', x.shape, tuple(
                v.decode().strip() if isinstance(v, bytes) else str(v).strip()
                for v in x.ravel()))
        return ('arr', x.shape, tuple(
            'nan' if v != v else v for v in x.ravel().tolist()))
    if isinstance(x, dict):
        return ('dict', tuple(sorted(
            ((repr(k), canon(v, depth + 1)) for k, v in x.items()))))
    if isinstance(x, (list, tuple)):
        return (type(x).__name__, tuple(canon(v, depth + 1) for v in x))
    if isinstance(x, (set, frozenset)):
        return ('set', tuple(sorted(map(repr, x))))
    if isinstance(x, (types.FunctionType, types.BuiltinFunctionType,
                      types.MethodType, type, np.ufunc)):
        return ('fn', getattr(x, '__qualname__', repr(type(x))))
    if isinstance(x, BaseException):
        return ('exc', type(x).__name__, str(x))
    if hasattr(x, 'as_array'):
        return ('table', canon(np.array(x.as_array()), depth + 1))
    name = type(x).__name__
    if name in ('Comm', 'Intracomm'):
        return ('comm',)
    d = dict(getattr(x, '__dict__', {}))
    for c in type(x).__mro__:
        for s in getattr(c, '__slots__', ()) or ():
            if isinstance(s, str) and hasattr(x, s):
                d[s] = getattr(x, s)
    return ('obj', name, canon(d, depth + 1))
