"""File, directory, clock and log seams.

Real cfitsio does the reading and writing (inside a scratch directory); every
outermost fitsio call, Python ``open``, directory listing, mkdir, rename and
unlink under the scratch root is a scheduling point and a fault point.
"""
import logging
import os
import random
import sys
import time

import fitsio
import numpy as np
import fitsio.fitslib
import fitsio.hdu.base
import fitsio.hdu.image
import fitsio.hdu.table

from . import kernel as K

_real = {}
_installed = False


def _canon(path):
    path = str(path)
    if path.startswith('!'):
        path = path[1:]
    return os.path.abspath(os.path.expanduser(path))


def _under(k, path):
    return k.root is not None and (
        path == k.root or path.startswith(k.root + os.sep))


def _torn(k, path):
    """Leave only a prefix of what the process had written."""
    try:
        size = os.path.getsize(path)
    except OSError:
        return
    r = random.Random(f"torn-{k.seed}-{k.rel(path)}-{size}")
    mode = r.choice(['prefix', 'prefix', 'block', 'empty', 'gone', 'zeros'])
    if mode == 'gone':
        os.unlink(path)
        return
    if mode == 'empty':
        n = 0
    elif mode == 'block':
        n = (r.randrange(0, size + 1) // 2880) * 2880
    else:
        n = r.randrange(0, size + 1)
    with _real['open'](path, 'r+b') as f:
        f.truncate(n)
        if mode == 'zeros':
            f.truncate(size)
    k.fired.append(('torn-' + mode, -1, 0, 'torn', k.rel(path)))


def _hazard(k, p, kind, path):
    """Another process has this file open for writing right now."""
    for q in k.procs:
        if q is p:
            continue
        for (wpath, _) in q.open_writers.values():
            if wpath == path:
                k.violations.append((
                    'file-race',
                    f"rank {p.pid} {kind} {k.rel(path)} while rank {q.pid}"
                    " has it open for writing"))
                k.kill_everyone()
                k.die(p)


def _fits_init(self, filename, mode='r', *a, **kw):
    k, p = K.current()
    real = _real['FITS.__init__']
    if k is None or p.depth:
        return real(self, filename, mode, *a, **kw)
    path = _canon(filename)
    w = mode in ('rw', 1, fitsio.READWRITE)
    kind = 'open-w' if w else 'open-r'
    self._sim_path, self._sim_w = path, w
    p.depth += 1
    try:
        k.seam(p, kind, path)
        _hazard(k, p, kind, path)
        real(self, filename, mode, *a, **kw)
        if w:
            k.writers.setdefault(k.rel(path), []).append(p.pid)

            def closer(torn, self=self, path=path):
                _real['FITS.close'](self)
                if torn:
                    _torn(k, path)
            p.open_writers[id(self)] = (path, closer)
            self._sim_owner = p
    finally:
        p.depth -= 1


def _fits_close(self):
    k, p = K.current()
    real = _real['FITS.close']
    if k is None or p.depth or getattr(self, '_FITS', None) is None:
        return real(self)
    if p.dead:
        return real(self)
    w = getattr(self, '_sim_w', False)
    p.depth += 1
    try:
        try:
            k.seam(p, 'close-w' if w else 'close-r',
                   getattr(self, '_sim_path', None))
        except OSError:
            # the descriptor is released although the data may be incomplete
            owner = p.open_writers.pop(id(self), None)
            real(self)
            if owner is not None:
                _torn(k, owner[0])
            raise
        p.open_writers.pop(id(self), None)
        return real(self)
    finally:
        p.depth -= 1


def _fits_del(self):
    try:
        _fits_close(self)
    except BaseException:
        pass


def _wrap(cls, name, kind):
    real = getattr(cls, name)
    _real[f'{cls.__name__}.{name}'] = real

    def method(self, *a, **kw):
        k, p = K.current()
        if k is None or p.depth:
            return real(self, *a, **kw)
        path = getattr(self, '_sim_path', None)
        if path is None:
            path = getattr(self, '_filename', None)
            path = _canon(path) if path else None
        p.depth += 1
        try:
            k.seam(p, kind, path)
            return real(self, *a, **kw)
        finally:
            p.depth -= 1
    method.__name__ = name
    method.__doc__ = real.__doc__
    setattr(cls, name, method)


class _Scan:
    def __init__(self, entries):
        self._e = entries
        self._i = iter(entries)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    def __iter__(self):
        return self

    def __next__(self):
        return next(self._i)

    def close(self):
        self._i = iter(())


def _perm(k, p, path, items, key):
    r = random.Random(f"ls-{k.seed}-{p.pid}-{k.rel(path)}")
    items = sorted(items, key=key)
    r.shuffle(items)
    return items


def _scandir(path='.'):
    k, p = K.current()
    if k is None:
        return _real['scandir'](path)
    ap = _canon(path) if isinstance(path, (str, os.PathLike)) else None
    if ap is None or not _under(k, ap):
        return _real['scandir'](path)
    with _real['scandir'](path) as it:
        ents = list(it)
    return _Scan(_perm(k, p, ap, ents, lambda e: e.name))


def _listdir(path='.'):
    k, p = K.current()
    out = _real['listdir'](path)
    if k is None:
        return out
    ap = _canon(path) if isinstance(path, (str, os.PathLike)) else None
    if ap is None or not _under(k, ap):
        return out
    return _perm(k, p, ap, out, lambda e: e)


_AUDIT = {
    'os.mkdir': 'mkdir', 'os.remove': 'unlink', 'os.rename': 'rename',
    'os.listdir': 'list', 'os.scandir': 'list', 'os.rmdir': 'unlink',
    'os.truncate': 'write',
}


def _audit(event, args):
    if event != 'open' and event not in _AUDIT:
        return
    k, p = K.current()
    if k is None or p.depth or p.dead:
        return
    path = args[0] if args else None
    if not isinstance(path, str):
        return
    path = _canon(path)
    if not _under(k, path):
        return
    if event == 'open':
        mode, flags = args[1], args[2]
        w = bool((flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT))
        if isinstance(mode, str) and any(c in mode for c in 'wax+'):
            w = True
        kind = 'pyopen-w' if w else 'pyopen-r'
    else:
        kind = _AUDIT[event]
    p.depth += 1
    try:
        k.seam(p, kind, path)
        if kind.startswith('pyopen'):
            _hazard(k, p, kind, path)
        if kind == 'pyopen-w':
            k.writers.setdefault(k.rel(path), []).append(p.pid)
    finally:
        p.depth -= 1


def _clock(name):
    real = getattr(time, name)
    _real['time.' + name] = real

    def f():
        k, p = K.current()
        if k is None:
            return real()
        k.clock += 1e-6
        return k.now(p)
    f.__name__ = name
    return f


def _sleep(sec):
    k, p = K.current()
    if k is None:
        return _real['time.sleep'](sec)
    t = k.clock + max(0.0, sec)
    k.seam(p, 'sleep', None)
    # discrete-event time: if nobody else can move, jump
    if not [q for q in k.runnable() if q is not p]:
        k.clock = max(k.clock, t)
    else:
        k.clock += min(sec, 1.0)


# -- uninitialised memory -----------------------------------------------------
DIRT = (float('nan'), 1e37, -7.7e8, 0.123, float('-inf'))


def _dirty(a, k, p):
    """What malloc returns is whatever was there before: drawn from the
    seed."""
    try:
        if a.dtype.names:
            for n in a.dtype.names:
                _dirty(a[n], k, p)
        elif a.dtype.kind == 'f':
            a[...] = DIRT[(k.seed + p.pid) % len(DIRT)]
        elif a.dtype.kind == 'i':
            a[...] = (k.seed * 77 + p.pid) % 101 + 13
        elif a.dtype.kind == 'b':
            a[...] = bool((k.seed + p.pid) % 2)
    except Exception:
        pass
    return a


def _empty(name):
    real = getattr(np, name)

    def f(*a, **kw):
        out = real(*a, **kw)
        k, p = K.current()
        return out if k is None else _dirty(out, k, p)
    f.__name__ = name
    f.__doc__ = real.__doc__
    return f


class _Capture(logging.Handler):
    def emit(self, record):
        k, p = K.current()
        if p is not None and len(p.logs) < 400:
            try:
                p.logs.append((record.levelname, record.getMessage()[:2000]))
            except Exception:
                pass


def install():
    global _installed
    if _installed:
        return
    _installed = True
    import builtins
    _real['open'] = builtins.open
    F = fitsio.fitslib.FITS
    _real['FITS.__init__'] = F.__init__
    _real['FITS.close'] = F.close
    F.__init__ = _fits_init
    F.close = _fits_close
    if hasattr(F, '__del__'):
        F.__del__ = _fits_del
    for n in ('write', 'write_image', 'write_table', 'create_image_hdu',
              'create_table_hdu'):
        _wrap(F, n, 'write')
    for n in ('read_raw',):
        _wrap(F, n, 'read')
    Base = fitsio.hdu.base.HDUBase
    Img = fitsio.hdu.image.ImageHDU
    Tab = fitsio.hdu.table.TableHDU
    for n in ('read_header', 'read_header_list'):
        _wrap(Base, n, 'read')
    for n in ('write_key', 'write_keys', 'write_comment', 'write_history',
              'write_checksum'):
        _wrap(Base, n, 'write')
    for n in ('read', '__getitem__'):
        _wrap(Img, n, 'read')
    for n in ('write', 'reshape'):
        _wrap(Img, n, 'write')
    for n in ('read', 'read_column', 'read_columns', 'read_rows',
              'read_slice', '__getitem__', 'where'):
        _wrap(Tab, n, 'read')
    for n in ('write', 'append', 'write_column', 'insert_column', 'resize',
              'delete_rows'):
        _wrap(Tab, n, 'write')
    _real['scandir'], _real['listdir'] = os.scandir, os.listdir
    os.scandir, os.listdir = _scandir, _listdir
    for n in ('time', 'monotonic', 'perf_counter', 'process_time'):
        setattr(time, n, _clock(n))
    for n in ('empty', 'empty_like'):
        setattr(np, n, _empty(n))
    _real['time.sleep'] = time.sleep
    time.sleep = _sleep
    sys.addaudithook(_audit)
    root = logging.getLogger()
    for h in list(root.handlers):
        root.removeHandler(h)
    root.addHandler(_Capture())
    root.setLevel(logging.INFO)
