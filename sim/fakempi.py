"""A simulated MPI: the module installed as ``mpi4py`` / ``mpi4py.MPI``.

COMM_WORLD resolves the calling process through the kernel.  Object
collectives pickle and unpickle their payload (in the sender's and receiver's
own module image), buffer collectives copy.  Completion rules follow the MPI
standard: a rooted collective is only required to wait for the data it needs,
so a broadcasting root may run ahead ("eager") or wait for everybody
("synchronous") - the kernel's seeded choice.
"""
import functools
import pickle
import random
import sys
import types

import numpy as np

from . import kernel as K


class Exception_(RuntimeError):
    """stands for mpi4py.MPI.Exception"""


class _InPlace:
    def __repr__(self):
        return "MPI.IN_PLACE"


class Op:
    def __init__(self, name, fn):
        self.name = name
        self.fn = fn

    def __call__(self, a, b):
        return self.fn(a, b)

    def __repr__(self):
        return f"MPI.{self.name}"


def _np_or(pyf, npf):
    def f(a, b):
        if isinstance(a, np.ndarray) or isinstance(b, np.ndarray):
            return npf(a, b)
        return pyf(a, b)
    return f


SUM = Op("SUM", lambda a, b: a + b)
PROD = Op("PROD", lambda a, b: a * b)
MAX = Op("MAX", _np_or(max, np.maximum))
MIN = Op("MIN", _np_or(min, np.minimum))
LAND = Op("LAND", _np_or(lambda a, b: bool(a) & bool(b), np.logical_and))
LOR = Op("LOR", _np_or(lambda a, b: bool(a) | bool(b), np.logical_or))
LXOR = Op("LXOR", lambda a, b: bool(a) ^ bool(b))
BAND = Op("BAND", lambda a, b: a & b)
BOR = Op("BOR", lambda a, b: a | b)
BXOR = Op("BXOR", lambda a, b: a ^ b)
IN_PLACE = _InPlace()


def _spec(buf):
    """Buffer argument -> contiguous ndarray (as mpi4py would require)."""
    if isinstance(buf, (list, tuple)):
        if not buf:
            raise ValueError("message: empty buffer spec")
        arr = buf[0]
    else:
        arr = buf
    if isinstance(arr, np.generic):
        raise K.SimUnsupported("numpy scalar as MPI buffer")
    if not isinstance(arr, np.ndarray):
        raise TypeError(
            f"message: cannot interpret {type(arr).__name__} as buffer")
    if not (arr.flags.c_contiguous or arr.flags.f_contiguous):
        raise BufferError("dlpack: buffer is not contiguous")
    if arr.dtype.kind not in 'fiubc' or not arr.dtype.isnative:
        raise KeyError(f"no MPI datatype for {arr.dtype}")
    return arr


def _flat(arr):
    """1-D view in memory order."""
    return arr.reshape(-1) if arr.flags.c_contiguous else arr.T.reshape(-1)


class _Coll:
    __slots__ = ('kind', 'root', 'sig', 'data', 'arrived', 'left', 'perm',
                 'cache', 'bad')

    def __init__(self, kind, root, sig):
        self.kind, self.root, self.sig = kind, root, sig
        self.data = {}
        self.arrived = set()
        self.left = set()
        self.perm = None
        self.cache = None
        self.bad = False


class Request:
    def __init__(self, fn):
        self._fn = fn
        self._done = False
        self._val = None

    def wait(self, status=None):
        if not self._done:
            self._val = self._fn()
            self._done = True
        return self._val

    Wait = wait

    def test(self, status=None):
        return True, self.wait()

    @staticmethod
    def waitall(reqs, statuses=None):
        return [r.wait() for r in reqs]

    Waitall = waitall


class Comm:
    """One communicator over all simulated ranks (COMM_WORLD or a Dup)."""

    def __init__(self, cid=0):
        self.cid = cid
        self._ndup = 0

    # identity -----------------------------------------------------------
    def _me(self):
        k, p = K.current()
        if k is None:
            return None, None
        if p.dead:
            raise K.Killed()
        return k, p

    def Get_rank(self):
        k, p = self._me()
        return p.pid if k else 0

    def Get_size(self):
        k, p = self._me()
        return k.n if k else 1

    rank = property(lambda s: s.Get_rank())
    size = property(lambda s: s.Get_size())

    def Get_name(self):
        return "MPI_COMM_WORLD"

    def Is_inter(self):
        return False

    def Dup(self, info=None):
        k, p = self._me()
        self._collective('dup', None, None, wait='all')
        n = p.__dict__.setdefault('ndup', 0) + 1
        p.ndup = n
        return Comm(self.cid * 100 + n)

    Clone = Dup

    def Free(self):
        pass

    def Split(self, *a, **kw):
        raise K.SimUnsupported("Comm.Split")

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        raise K.SimUnsupported(f"MPI.Comm.{name}")

    def Abort(self, errorcode=0):
        k, p = self._me()
        if k is None:
            raise SystemExit(errorcode or 1)
        k.event(p, 'abort', str(errorcode))
        k.aborted = (p.pid, errorcode)
        k.abort_exc = sys.exc_info()[1]
        import traceback
        k.abort_text = ''.join(traceback.format_exception(
            *sys.exc_info())) if sys.exc_info()[1] is not None else ''
        k.kill_everyone()
        k.die(p)

    # engine ---------------------------------------------------------------
    def _collective(self, kind, root, payload, wait, sig=None):
        """Join the next collective on this communicator.

        wait: 'all' (everybody must arrive), 'root' (the root must arrive),
        'none' (data already handed over; may run ahead).
        """
        k, p = self._me()
        if k is None:
            raise K.SimUnsupported("collective outside the simulation")
        if root is not None and not (0 <= root < k.n):
            raise Exception_("MPI_ERR_ROOT: invalid root")
        seqs = p.__dict__.setdefault('seqs', {})
        seq = seqs.get(self.cid, 0)
        seqs[self.cid] = seq + 1
        k.seam(p, f'mpi-{kind}', f'{k.root or ""}/#{self.cid}.{seq}')
        key = (self.cid, seq)
        c = k.colls.get(key)
        if c is None:
            c = k.colls[key] = _Coll(kind, root, sig)
            r = random.Random(f"red-{k.redseed}-{key}")
            c.perm = list(range(k.n))
            if r.random() < 0.7:
                r.shuffle(c.perm)
        elif c.kind != kind or c.root != root or (
                sig is not None and c.sig is not None and c.sig != sig):
            k.violations.append(
                ('mpi-mismatch',
                 f"collective #{seq}: rank {p.pid} calls {kind}(root={root},"
                 f" {sig}) while another rank called {c.kind}(root={c.root},"
                 f" {c.sig})"))
            k.kill_everyone()
            k.die(p)
        if c.sig is None:
            c.sig = sig
        c.data[p.pid] = payload
        c.arrived.add(p.pid)
        if wait == 'none':
            r = random.Random(f"eager-{k.seed}-{key}-{p.pid}")
            if r.random() >= k.eager_p:
                wait = 'all'
        if wait == 'all':
            k.block(p, lambda: len(c.arrived) == k.n, f"{kind} #{seq}")
        elif wait == 'root':
            k.block(p, lambda: c.root in c.arrived, f"{kind} #{seq}")
        else:
            k.yield_(p)
        return k, p, c, key

    def _leave(self, k, p, c, key):
        c.left.add(p.pid)
        if len(c.left) == k.n:
            k.colls.pop(key, None)

    # object collectives -----------------------------------------------------
    def Barrier(self):
        k, p, c, key = self._collective('barrier', None, None, 'all')
        self._leave(k, p, c, key)

    barrier = Barrier

    def bcast(self, obj=None, root=0):
        k, p = self._me()
        am_root = p.pid == root
        blob = pickle.dumps(obj) if am_root else None
        k, p, c, key = self._collective(
            'bcast', root, blob, 'none' if am_root else 'root')
        blob = c.data[root]
        self._leave(k, p, c, key)
        return pickle.loads(blob)   # mpi4py copies on the root too

    def scatter(self, sendobj=None, root=0):
        k, p = self._me()
        am_root = p.pid == root
        blobs = None
        if am_root:
            if sendobj is None:
                raise TypeError("object of type 'NoneType' has no len()")
            items = list(sendobj)
            if len(items) != k.n:
                raise ValueError(
                    f"expecting {k.n} items, got {len(items)}")
            blobs = [pickle.dumps(x) for x in items]
        k, p, c, key = self._collective(
            'scatter', root, blobs, 'none' if am_root else 'root')
        blob = c.data[root][p.pid]
        self._leave(k, p, c, key)
        return pickle.loads(blob)

    def gather(self, sendobj, root=0):
        k, p = self._me()
        blob = pickle.dumps(sendobj)
        k, p, c, key = self._collective(
            'gather', root, blob, 'all' if p.pid == root else 'none')
        out = None
        if p.pid == root:
            out = [pickle.loads(c.data[i]) for i in range(k.n)]
        self._leave(k, p, c, key)
        return out

    def allgather(self, sendobj):
        blob = pickle.dumps(sendobj)
        k, p, c, key = self._collective('allgather', None, blob, 'all')
        out = [pickle.loads(c.data[i]) for i in range(k.n)]
        self._leave(k, p, c, key)
        return out

    def alltoall(self, sendobj):
        k, p = self._me()
        items = list(sendobj)
        if len(items) != k.n:
            raise ValueError(f"expecting {k.n} items, got {len(items)}")
        blobs = [pickle.dumps(x) for x in items]
        k, p, c, key = self._collective('alltoall', None, blobs, 'all')
        out = [pickle.loads(c.data[i][p.pid]) for i in range(k.n)]
        self._leave(k, p, c, key)
        return out

    def _pyreduce(self, op, objs):
        return functools.reduce(op if op is not None else SUM, objs)

    def reduce(self, sendobj, op=SUM, root=0):
        k, p = self._me()
        blob = pickle.dumps(sendobj)
        k, p, c, key = self._collective(
            'reduce', root, blob, 'all' if p.pid == root else 'none')
        out = None
        if p.pid == root:
            out = self._pyreduce(
                op, [pickle.loads(c.data[i]) for i in range(k.n)])
        self._leave(k, p, c, key)
        return out

    def allreduce(self, sendobj, op=SUM):
        blob = pickle.dumps(sendobj)
        k, p, c, key = self._collective('allreduce', None, blob, 'all')
        out = self._pyreduce(
            op, [pickle.loads(c.data[i]) for i in range(k.n)])
        self._leave(k, p, c, key)
        return out

    def scan(self, sendobj, op=SUM):
        blob = pickle.dumps(sendobj)
        k, p, c, key = self._collective('scan', None, blob, 'all')
        out = self._pyreduce(
            op, [pickle.loads(c.data[i]) for i in range(p.pid + 1)])
        self._leave(k, p, c, key)
        return out

    def exscan(self, sendobj, op=SUM):
        blob = pickle.dumps(sendobj)
        k, p, c, key = self._collective('exscan', None, blob, 'all')
        out = None
        if p.pid:
            out = self._pyreduce(
                op, [pickle.loads(c.data[i]) for i in range(p.pid)])
        self._leave(k, p, c, key)
        return out

    # buffer collectives --------------------------------------------------------
    def Allreduce(self, sendbuf, recvbuf, op=SUM):
        r = _spec(recvbuf)
        s = r if sendbuf is IN_PLACE else _spec(sendbuf)
        if s.size != r.size or s.dtype != r.dtype:
            raise ValueError(
                "mismatch in send/receive buffer of Allreduce")
        k, p, c, key = self._collective(
            'Allreduce', None, _flat(s).copy(), 'all',
            sig=(s.size, s.dtype.str))
        if c.cache is None:
            acc = None
            for i in c.perm:
                d = c.data[i]
                acc = d.copy() if acc is None else op(acc, d)
            c.cache = acc
        _flat(r)[...] = c.cache
        self._leave(k, p, c, key)

    def Reduce(self, sendbuf, recvbuf, op=SUM, root=0):
        k, p = self._me()
        am_root = p.pid == root
        if am_root:
            r = _spec(recvbuf)
            s = r if sendbuf is IN_PLACE else _spec(sendbuf)
            if s.size != r.size:
                raise ValueError("mismatch in buffers of Reduce")
        else:
            s = _spec(sendbuf)
        k, p, c, key = self._collective(
            'Reduce', root, _flat(s).copy(), 'all' if am_root else 'none',
            sig=(s.size, s.dtype.str))
        if am_root:
            acc = None
            for i in c.perm:
                d = c.data[i]
                acc = d.copy() if acc is None else op(acc, d)
            _flat(r)[...] = acc
        self._leave(k, p, c, key)

    def Bcast(self, buf, root=0):
        k, p = self._me()
        b = _spec(buf)
        am_root = p.pid == root
        k, p, c, key = self._collective(
            'Bcast', root, _flat(b).copy() if am_root else None,
            'none' if am_root else 'root', sig=(b.size, b.dtype.str))
        if not am_root:
            _flat(b)[...] = c.data[root]
        self._leave(k, p, c, key)

    def Allgather(self, sendbuf, recvbuf):
        r = _spec(recvbuf)
        k, p = self._me()
        if sendbuf is IN_PLACE:
            n = r.size // k.n
            s = _flat(r)[p.pid * n:(p.pid + 1) * n]
        else:
            s = _flat(_spec(sendbuf))
        if s.size * k.n > r.size:
            raise Exception_("MPI_ERR_TRUNCATE: message truncated")
        k, p, c, key = self._collective(
            'Allgather', None, s.copy(), 'all', sig=(s.size, s.dtype.str))
        for i in range(k.n):
            _flat(r)[i * s.size:(i + 1) * s.size] = c.data[i]
        self._leave(k, p, c, key)

    def Gather(self, sendbuf, recvbuf, root=0):
        k, p = self._me()
        s = _flat(_spec(sendbuf))
        am_root = p.pid == root
        r = _spec(recvbuf) if am_root else None
        k, p, c, key = self._collective(
            'Gather', root, s.copy(), 'all' if am_root else 'none',
            sig=(s.size, s.dtype.str))
        if am_root:
            for i in range(k.n):
                _flat(r)[i * s.size:(i + 1) * s.size] = c.data[i]
        self._leave(k, p, c, key)

    def Gatherv(self, sendbuf, recvbuf, root=0):
        k, p = self._me()
        s = _flat(_spec(sendbuf))
        am_root = p.pid == root
        r = _spec(recvbuf) if am_root else None
        k, p, c, key = self._collective(
            'Gatherv', root, s.copy(), 'all' if am_root else 'none',
            sig=None)
        if am_root:
            o = 0
            for i in range(k.n):
                d = c.data[i]
                _flat(r)[o:o + d.size] = d
                o += d.size
        self._leave(k, p, c, key)

    def Scatter(self, sendbuf, recvbuf, root=0):
        k, p = self._me()
        r = _flat(_spec(recvbuf))
        am_root = p.pid == root
        s = _flat(_spec(sendbuf)).copy() if am_root else None
        k, p, c, key = self._collective(
            'Scatter', root, s, 'none' if am_root else 'root')
        r[...] = c.data[root][p.pid * r.size:(p.pid + 1) * r.size]
        self._leave(k, p, c, key)

    # point to point ------------------------------------------------------------
    def _post(self, dest, tag, payload):
        k, p = self._me()
        k.seam(p, 'mpi-send', f'{k.root or ""}/{p.pid}->{dest}.{tag}')
        k.mail.setdefault((self.cid, dest), []).append((p.pid, tag, payload))

    def _take(self, source, tag):
        k, p = self._me()
        k.seam(p, 'mpi-recv', f'{k.root or ""}/{source}->{p.pid}.{tag}')
        box = k.mail.setdefault((self.cid, p.pid), [])

        def match():
            return [i for i, (s, t, _) in enumerate(box)
                    if (source in (ANY_SOURCE, s)) and (tag in (ANY_TAG, t))]
        k.block(p, lambda: bool(match()), f"recv from {source}")
        first = {}
        for i in match():
            first.setdefault(box[i][0], i)      # non-overtaking per sender
        opts = sorted(first.values())
        i = opts[k.choose(opts, p)] if len(opts) > 1 else opts[0]
        return box.pop(i)

    def send(self, obj, dest, tag=0):
        self._post(dest, tag, pickle.dumps(obj))

    ssend = bsend = send

    def isend(self, obj, dest, tag=0):
        self.send(obj, dest, tag)
        return Request(lambda: None)

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        s, t, blob = self._take(source, tag)
        if status is not None:
            status.source, status.tag = s, t
        return pickle.loads(blob)

    def irecv(self, buf=None, source=-1, tag=-1):
        return Request(lambda: self.recv(None, source, tag))

    def sendrecv(self, sendobj, dest, sendtag=0, recvbuf=None, source=-1,
                 recvtag=-1, status=None):
        self.send(sendobj, dest, sendtag)
        return self.recv(None, source, recvtag, status)

    def Send(self, buf, dest, tag=0):
        self._post(dest, tag, _flat(_spec(buf)).copy())

    def Isend(self, buf, dest, tag=0):
        self.Send(buf, dest, tag)
        return Request(lambda: None)

    def Recv(self, buf, source=-1, tag=-1, status=None):
        b = _flat(_spec(buf))
        s, t, d = self._take(source, tag)
        if d.size > b.size:
            raise Exception_("MPI_ERR_TRUNCATE: message truncated")
        b[:d.size] = d

    def Irecv(self, buf, source=-1, tag=-1):
        return Request(lambda: self.Recv(buf, source, tag))


class Status:
    source = -1
    tag = -1

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


ANY_SOURCE = -1
ANY_TAG = -1
PROC_NULL = -2
COMM_WORLD = Comm(0)


def build_module():
    pkg = types.ModuleType("mpi4py")
    pkg.__path__ = []
    pkg.__version__ = "4.0-sim"
    m = types.ModuleType("mpi4py.MPI")
    for name in ("SUM PROD MAX MIN LAND LOR LXOR BAND BOR BXOR IN_PLACE Op "
                 "Comm Request Status ANY_SOURCE ANY_TAG PROC_NULL "
                 "COMM_WORLD").split():
        setattr(m, name, globals()[name])
    m.Intracomm = Comm
    m.Exception = Exception_
    m.DOUBLE = m.FLOAT64 = 'd'
    m.INT = 'i'
    m.LONG = m.INT64_T = 'l'
    m.BOOL = '?'
    m.ERRORS_RETURN = m.ERRORS_ARE_FATAL = None
    m.UNDEFINED = -32766

    def Wtime():
        k, p = K.current()
        return k.now(p) if k else 0.0
    m.Wtime = Wtime
    m.Is_initialized = lambda: True
    m.Is_finalized = lambda: False
    m.Finalize = lambda: COMM_WORLD.Barrier()
    m.Get_processor_name = lambda: "sim"
    m.__getattr__ = _missing
    pkg.MPI = m
    pkg.rc = types.SimpleNamespace(initialize=True, finalize=True)
    pkg.get_vendor = lambda: ("sim", (1, 0, 0))
    return pkg, m


def _missing(name):
    if name.startswith('__'):
        raise AttributeError(name)
    raise K.SimUnsupported(f"MPI.{name}")


def install():
    pkg, m = build_module()
    sys.modules['mpi4py'] = pkg
    sys.modules['mpi4py.MPI'] = m
