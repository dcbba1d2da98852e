"""Small stand-alone harness for the demonstrations: forked processes joined by
a fake MPI communicator, and a tiny synthetic survey.  Works in a scratch
directory only."""
import io
import os
import pickle
import shutil
import sys
import tempfile
import traceback
import types
import warnings
from multiprocessing import Pipe

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS"):
    os.environ[_v] = "1"
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.getcwd(), "py"))

import numpy as np                                             # noqa: E402
import fitsio                                                  # noqa: E402

warnings.simplefilter("ignore")
np.seterr(all="ignore")

try:
    import numba                                               # noqa: F401
except ImportError:
    nb = types.ModuleType("numba")

    def njit(*a, **k):
        if len(a) == 1 and callable(a[0]):
            return a[0]
        return lambda f: f
    nb.njit = nb.jit = njit
    sys.modules["numba"] = nb

IN_PLACE = 1
LINK = None                 # (rank, size, connection) in a child


class Comm:
    def Get_rank(self):
        return LINK[0] if LINK else 0

    def Get_size(self):
        return LINK[1] if LINK else 1

    rank = property(Get_rank)
    size = property(Get_size)

    def _coll(self, op, root, payload):
        if LINK is None:
            vals = [payload]
        else:
            LINK[2].send_bytes(pickle.dumps((op, root, payload)))
            vals = pickle.loads(LINK[2].recv_bytes())
        return vals

    def Barrier(self):
        self._coll("barrier", 0, None)

    barrier = Barrier

    def bcast(self, x=None, root=0):
        me = self.Get_rank() == root
        v = self._coll("bcast", root, x if me else None)[root]
        return x if me else v

    def scatter(self, x=None, root=0):
        me = self.Get_rank() == root
        return self._coll("scatter", root, x if me else None)[root][
            self.Get_rank()]

    def gather(self, x, root=0):
        v = self._coll("gather", root, x)
        return v if self.Get_rank() == root else None

    def allgather(self, x):
        return self._coll("allgather", 0, x)

    @staticmethod
    def _fold(vals, op):
        r = vals[0]
        for v in vals[1:]:
            r = r + v if op is None else op(r, v)
        return r

    def reduce(self, x, op=None, root=0):
        v = self._coll("reduce", root, x)
        return self._fold(v, op) if self.Get_rank() == root else None

    def allreduce(self, x, op=None):
        return self._fold(self._coll("allreduce", 0, x), op)

    def Allreduce(self, a, b, op=None):
        src = b if a is IN_PLACE else a
        v = self._coll("Allreduce", 0, np.array(src))
        b[...] = self._fold(v, op)

    def Abort(self, code=1):
        if LINK is not None:
            LINK[2].send_bytes(pickle.dumps(("abort", 0, code)))
        os._exit(1)


_mpi = types.ModuleType("mpi4py")
_mpi.MPI = types.ModuleType("mpi4py.MPI")
_mpi.MPI.COMM_WORLD = Comm()
_mpi.MPI.IN_PLACE = IN_PLACE
_mpi.MPI.SUM = None
_mpi.MPI.MAX = max
_mpi.MPI.MIN = min
sys.modules["mpi4py"] = _mpi
sys.modules["mpi4py.MPI"] = _mpi.MPI


class Outcome:
    """status: 'ok', 'fail' (reported), 'hang'; results[rank]."""

    def __init__(self, status, results, detail=""):
        self.status, self.results, self.detail = status, results, detail

    def __repr__(self):
        return f"{self.status} {self.detail}"


def run(n, fn, verbose=False):
    """fn(rank, comm) in n forked processes; collectives in lockstep."""
    global LINK
    conns, pids = [], []
    for r in range(n):
        a, b = Pipe()
        pid = os.fork()
        if pid == 0:
            LINK = (r, n, b)
            if not verbose:
                fd = os.open(os.devnull, os.O_WRONLY)
                os.dup2(fd, 1)
                os.dup2(fd, 2)
            code, res = 0, None
            try:
                res = fn(r, _mpi.MPI.COMM_WORLD)
            except SystemExit as e:
                code = e.code or 0
                if not isinstance(code, int):
                    code = 1
            except BaseException as e:
                traceback.print_exc()
                code, res = 1, f"{type(e).__name__}: {e}"
            b.send_bytes(pickle.dumps(("exit", code, res)))
            os._exit(0)
        b.close()
        conns.append(a)
        pids.append(pid)
    done = {}
    status, detail = None, ""
    while len(done) < n and status is None:
        msgs = {}
        for r in range(n):
            if r in done:
                continue
            try:
                m = pickle.loads(conns[r].recv_bytes())
            except EOFError:
                m = ("exit", 1, "died")
            if m[0] == "abort":
                status, detail = "fail", f"rank {r} aborted"
                break
            if m[0] == "exit":
                done[r] = (m[1], m[2])
            else:
                msgs[r] = m
        if status or not msgs:
            continue
        if len(msgs) < n:
            status = "hang"
            detail = f"ranks {sorted(msgs)} wait, ranks {sorted(done)} ended"
            break
        if len({(m[0], m[1]) for m in msgs.values()}) != 1:
            status, detail = "hang", f"mismatch {[m[0] for m in msgs.values()]}"
            break
        vals = pickle.dumps([msgs[r][2] for r in range(n)])
        for r in range(n):
            conns[r].send_bytes(vals)
    for p in pids:
        if status is not None:
            try:
                os.kill(p, 9)
            except OSError:
                pass
        os.waitpid(p, 0)
    if status is None:
        bad = [r for r in done if done[r][0] != 0]
        status = "fail" if bad else "ok"
        detail = f"ranks {bad}: {[done[r] for r in bad]}" if bad else ""
    return Outcome(status, [done.get(r, (None, None))[1] for r in range(n)],
                   detail)


def shrink():
    import qsonic.picca_continuum as pc
    V = pc.VarLSSFitter
    V.min_num_pix, V.min_num_qso = 4, 2
    if hasattr(V, "_demo"):
        return
    V._demo = True
    orig = V.__init__

    def init(self, w1, w2, nwbins=None, var1=1e-4, var2=20., nvarbins=14,
             nsubsamples=600, use_cov=False, comm=None):
        orig(self, w1, w2, nwbins, var1, var2, nvarbins, nsubsamples, use_cov,
             comm)
    V.__init__ = init


def program(name, argv, n, verbose=False):
    """Run a qsonic program ('qsonic_fit', ...) on n processes."""
    import importlib

    def fn(rank, comm):
        sys.argv = [name] + [str(a) for a in argv]
        m = importlib.import_module("qsonic.scripts." + name)
        shrink()
        m.main()
    return run(n, fn, verbose)


class Scratch:
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix="demo-")
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


DW = 3.2
WAVE = {"B": 3600. + DW * np.arange(0, 282), "R": 3600. + DW * np.arange(250, 532)}


def cont(wrf):
    return 1 + 0.5 * np.exp(-(wrf - 1215.67)**2 / 2 / 14.**2) \
        + 0.1 * np.sin(wrf / 30.)


class Survey:
    """quasars: list of dicts tid, z, pix, survey, night, [snr], [expos]"""

    def __init__(self, root, quasars, arms=("B", "R"), order=None):
        self.root, self.q, self.arms = root, quasars, arms
        import healpy
        rows = []
        for q in quasars:
            ra, dec = healpy.pix2ang(64, q["pix"], nest=True, lonlat=True)
            rows.append((q["tid"], q["z"], ra, dec, q["pix"],
                         q.get("survey", "main"), q.get("night", 20210101)))
        cat = np.array(rows, dtype=[
            ("TARGETID", "i8"), ("Z", "f8"), ("RA", "f8"), ("DEC", "f8"),
            ("HPXPIXEL", "i8"), ("SURVEY", "S6"), ("LASTNIGHT", "i4")])
        self.cat = cat
        self.catalog = f"{root}/cat.fits"
        self.save_catalog()
        self.data = {}
        files = {}
        for q in quasars:
            files.setdefault((q.get("survey", "main"), q["pix"]), []).append(q)
        self.files = files
        for (s, p), qs in files.items():
            d = f"{root}/in/{s}/dark/{p // 100}/{p}"
            os.makedirs(d)
            if order:
                qs = order(qs)
            qs = [q for q in qs if not q.get("absent")]
            self._write(f"{d}/coadd-{s}-dark-{p}.fits", [(q, 0) for q in qs])
            ex = [(q, e) for e in range(3) for q in qs
                  if e < q.get("expos", 0)]
            if ex:
                self._write(f"{d}/spectra-{s}-dark-{p}.fits", ex, True)

    def save_catalog(self, cat=None):
        with fitsio.FITS(self.catalog, "rw", clobber=True) as f:
            f.write(self.cat if cat is None else cat, extname="QSO_CAT")

    def spectrum(self, q, e):
        key = (q["tid"], e)
        if key not in self.data:
            g = np.random.default_rng([q["tid"] % 99991, e])
            out = {}
            for arm in self.arms:
                w = WAVE[arm]
                c = 5. * (1 + 0.1 * (q["tid"] % 7)) * cont(w / (1 + q["z"]))
                f = c * np.where(w / (1 + q["z"]) < 1215.67,
                                 0.8 * (1 + 0.25 * g.normal(size=w.size)), 1)
                sig = 5. / q.get("snr", 4.) * 10**(1.4 * g.random(w.size) - 0.7)
                f = f + sig * g.normal(size=w.size)
                out[arm] = (f, 1 / sig**2)
            self.data[key] = out
        return self.data[key]

    def _write(self, fn, rows, expo=False):
        with fitsio.FITS(fn, "rw", clobber=True) as f:
            dt = [("TARGETID", "i8")]
            if expo:
                dt += [("PETAL_LOC", "i2"), ("FIBER", "i4"), ("NIGHT", "i4"),
                       ("EXPID", "i4"), ("TILEID", "i4")]
            fm = np.zeros(len(rows), dtype=dt)
            for i, (q, e) in enumerate(rows):
                fm["TARGETID"][i] = q["tid"]
                if expo:
                    fm["NIGHT"][i] = 20210101 + e
                    fm["EXPID"][i] = 1000 + e
            f.write(fm, extname="FIBERMAP")
            for arm in self.arms:
                f.write(WAVE[arm], extname=f"{arm}_WAVELENGTH")
                for k, nm in ((0, "FLUX"), (1, "IVAR")):
                    a = np.array([self.spectrum(q, e)[arm][k]
                                  for q, e in rows])
                    f.write(a.astype("f4"), extname=f"{arm}_{nm}")
                f.write(np.zeros((len(rows), WAVE[arm].size), dtype="i4"),
                        extname=f"{arm}_MASK")

    def argv(self, out, *more):
        return ["-i", f"{self.root}/in", "--catalog", self.catalog, "-o", out,
                "--wave1", 3620, "--wave2", 4900, "--skip-resomat",
                "--num-iterations", 2, *more]


def quasars(npix, per, z0=2.2, dz=0.04, tid0=1000, **kw):
    out = []
    for p in range(npix):
        for k in range(per if isinstance(per, int) else per[p]):
            i = len(out)
            out.append(dict(tid=tid0 + 17 * i, z=z0 + (dz * i) % 0.7,
                            pix=3000 + 7 * p, **kw))
    return out


def deltas(outdir):
    """{(file, extname): (header, table)}"""
    out = {}
    import glob
    for fn in sorted(glob.glob(f"{outdir}/delta-*.fits")):
        with fitsio.FITS(fn) as f:
            for h in f[1:]:
                out[(os.path.basename(fn), h.get_extname())] = (
                    h.read_header(), h.read())
    return out


def check(cond, msg):
    if not cond:
        print("FAILED:", msg)
        sys.exit(1)
