"""A simulated multiprocessing.Pool.

Workers are real forks of the simulated main process (so they inherit its
state exactly as under Linux), but at any time exactly one process runs: a
worker stops at every I/O seam and waits for the simulator's go-ahead, and
which worker takes the next task or the next step is a recorded scheduling
choice.
"""
import multiprocessing
import multiprocessing.context
import multiprocessing.pool
import os
import pickle
import signal
import socket
import struct
import sys

from . import kernel as K

_real_pool = None


def _send(s, obj):
    b = pickle.dumps(obj)
    s.sendall(struct.pack('<Q', len(b)) + b)


def _recvn(s, n):
    out = b''
    while len(out) < n:
        c = s.recv(min(1 << 20, n - len(out)))
        if not c:
            raise EOFError
        out += c
    return out


def _recv(s):
    n = struct.unpack('<Q', _recvn(s, 8))[0]
    return pickle.loads(_recvn(s, n))


class ChildGate:
    """Installed on the kernel inside a forked worker."""

    def __init__(self, sock):
        self.sock = sock

    def seam(self, p, kind, rel):
        _send(self.sock, ('ev', kind, rel))
        m = _recv(self.sock)
        if m[0] == 'oserror':
            raise OSError(*m[1])
        if m[0] == 'memory':
            raise MemoryError("simulated allocation failure")


class _W:
    def __init__(self, i, pid, sock):
        # pid is the scheduler's number, ospid the real one
        self.i, self.pid, self.ospid, self.sock = i, i, pid, sock
        self.state = 'idle'        # idle | paused
        self.chunk = None
        self.pending = None        # ('ev', kind, rel) waiting for go
        self.writing = set()


class _Async:
    def __init__(self, fn):
        self._fn, self._done, self._v, self._e = fn, False, None, None

    def _go(self):
        if not self._done:
            try:
                self._v = self._fn()
            except Exception as e:
                self._e = e
            self._done = True

    def get(self, timeout=None):
        self._go()
        if self._e is not None:
            raise self._e
        return self._v

    def wait(self, timeout=None):
        self._go()

    def ready(self):
        self._go()
        return True

    def successful(self):
        self._go()
        return self._e is None


def _mapstar(args):
    return [args[0](x) for x in args[1]]


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None):
        self.k, self.p = K.current()
        k = self.k
        if processes is None:
            import random
            processes = random.Random(f"nproc-{k.seed}").randint(1, 5)
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self.n = min(processes, 6)
        self.workers = []
        self.closed = False
        self.init = (initializer, initargs)
        for i in range(self.n):
            self._fork(i)
        k.pools = getattr(k, 'pools', []) + [self]

    def _fork(self, i):
        a, b = socket.socketpair()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                a.close()
                for w in self.workers:
                    w.sock.close()
                signal.signal(signal.SIGINT, signal.SIG_IGN)
                self.k.child = ChildGate(b)
                self._child(b)
            except BaseException:
                code = 1
            finally:
                os._exit(code)
        b.close()
        self.workers.append(_W(i, pid, a))

    def _child(self, sock):
        if self.init[0] is not None:
            self.init[0](*self.init[1])
        while True:
            try:
                m = _recv(sock)
            except EOFError:
                return
            if m is None:
                return
            blob = m
            try:
                fn, items, star = pickle.loads(blob)
                out = []
                for it in items:
                    out.append(fn(*it[0], **it[1]) if star else fn(it))
                reply = ('done', pickle.dumps(out))
            except Exception as e:
                try:
                    reply = ('exc', pickle.dumps(e))
                    pickle.loads(reply[1])
                except Exception:
                    reply = ('exc', pickle.dumps(RuntimeError(repr(e))))
            except SystemExit as e:
                reply = ('exc', pickle.dumps(RuntimeError(f"exit {e.code}")))
            _send(sock, reply)

    # -- scheduling --------------------------------------------------------
    def _run_chunks(self, fn, chunks, star):
        """Returns [(ok, list|exc)] per chunk."""
        if self.closed:
            raise ValueError("Pool not running")
        k, p = self.k, self.p
        blobs = [pickle.dumps((fn, list(c), star)) for c in chunks]
        results = [None] * len(chunks)
        nxt, last = 0, None
        left = len(chunks)
        while left:
            cands = [w for w in self.workers
                     if w.state == 'paused' or nxt < len(blobs)]
            cands.sort(key=lambda w: (w is not last, w.i))
            w = last = cands[k.choose(cands, last)]
            k.worker_steps.append(w.i)
            if w.state == 'idle':
                k.event(p, 'pool-task', f"w{w.i}:{nxt}")
                w.chunk = nxt
                _send(w.sock, blobs[nxt])
                nxt += 1
            else:
                _, kind, rel = w.pending
                w.pending = None
                k.event(p, kind, rel)
                k.event_worker = w.i
                try:
                    self._hazard(w, kind, rel)
                    k.fault_at(p, kind, rel)
                    if kind in ('open-w', 'pyopen-w'):
                        k.writers.setdefault(rel, []).append(f"w{w.i}")
                        w.writing.add(rel)
                    if kind == 'close-w':
                        w.writing.discard(rel)
                    _send(w.sock, ('go',))
                except OSError as e:
                    if kind == 'close-w':
                        w.writing.discard(rel)
                    _send(w.sock, ('oserror', (e.errno, e.strerror, rel)))
                except MemoryError:
                    _send(w.sock, ('memory',))
            try:
                m = _recv(w.sock)
            except EOFError:
                raise K.HarnessError("pool worker died")
            if m[0] == 'ev':
                w.state, w.pending = 'paused', m
            else:
                w.state = 'idle'
                val = pickle.loads(m[1])
                results[w.chunk] = (m[0] == 'done', val)
                left -= 1
        return results

    def _hazard(self, w, kind, rel):
        if not kind.startswith(('open', 'pyopen')):
            return
        for o in self.workers:
            if o is not w and rel in o.writing:
                self.k.violations.append((
                    'file-race', f"worker {w.i} {kind} {rel} while worker"
                    f" {o.i} has it open for writing"))
                self.k.kill_everyone()
                self.k.die(self.p)

    def _chunks(self, items, chunksize):
        items = list(items)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            if extra:
                chunksize += 1
        chunksize = max(1, chunksize)
        return [items[i:i + chunksize]
                for i in range(0, len(items), chunksize)]

    def _map(self, fn, items, star, chunksize):
        chunks = self._chunks(items, chunksize)
        res = self._run_chunks(fn, chunks, star)
        for ok, v in res:
            if not ok:
                raise v
        return [x for ok, v in res for x in v]

    def map(self, func, iterable, chunksize=None):
        return self._map(func, iterable, False, chunksize)

    def starmap(self, func, iterable, chunksize=None):
        return self._map(
            func, [(tuple(a), {}) for a in iterable], True, chunksize)

    def imap(self, func, iterable, chunksize=1):
        res = self._run_chunks(func, self._chunks(iterable, chunksize), False)
        for ok, v in res:
            if not ok:
                raise v
            yield from v

    def imap_unordered(self, func, iterable, chunksize=1):
        chunks = self._chunks(iterable, chunksize)
        res = self._run_chunks(func, chunks, False)
        order = list(range(len(res)))
        import random
        random.Random(f"unord-{self.k.seed}-{self.k.step}").shuffle(order)
        for i in order:
            ok, v = res[i]
            if not ok:
                raise v
            yield from v

    def apply(self, func, args=(), kwds={}):
        return self._map(func, [(tuple(args), dict(kwds))], True, 1)[0]

    def _async(self, fn, callback, error_callback):
        # submitted at once; results become visible when asked for
        a = _Async(fn)
        self._pending = getattr(self, '_pending', [])
        self._pending.append((a, callback, error_callback))
        return a

    def apply_async(self, func, args=(), kwds={}, callback=None,
                    error_callback=None):
        return self._async(lambda: self.apply(func, args, kwds),
                           callback, error_callback)

    def map_async(self, func, iterable, chunksize=None, callback=None,
                  error_callback=None):
        items = list(iterable)
        return self._async(lambda: self.map(func, items, chunksize),
                           callback, error_callback)

    def starmap_async(self, func, iterable, chunksize=None, callback=None,
                      error_callback=None):
        items = list(iterable)
        return self._async(lambda: self.starmap(func, items, chunksize),
                           callback, error_callback)

    def _drain(self):
        for a, cb, ecb in getattr(self, '_pending', []):
            a._go()
            if a._e is None and cb:
                cb(a._v)
            elif a._e is not None and ecb:
                ecb(a._e)
        self._pending = []

    def close(self):
        self._drain()
        self.closed = True
        for w in self.workers:
            try:
                _send(w.sock, None)
            except OSError:
                pass
        self._reap()

    def join(self):
        pass

    def terminate(self):
        self.closed = True
        self._kill()

    def _kill(self):
        for w in self.workers:
            try:
                os.kill(w.ospid, signal.SIGKILL)
            except OSError:
                pass
        self._reap()

    def crash(self, k):
        """The whole job dies: workers are killed in mid-write."""
        self._kill()
        from . import iosim
        for w in self.workers:
            for rel in sorted(w.writing):
                iosim._torn(k, os.path.join(k.root, rel))
        self.closed = True

    def _reap(self):
        for w in self.workers:
            try:
                os.waitpid(w.ospid, 0)
            except OSError:
                pass
            w.sock.close()
        self.workers = []

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.terminate()


def _pool(*a, **kw):
    k, p = K.current()
    if k is None:
        return _real_pool(*a, **kw)
    return SimPool(*a, **kw)


def install():
    global _real_pool
    if _real_pool is not None:
        return
    _real_pool = multiprocessing.Pool
    multiprocessing.Pool = _pool
    multiprocessing.context.BaseContext.Pool = \
        lambda self, *a, **kw: _pool(*a, **kw)
    multiprocessing.pool.Pool = _pool
