"""Set up the interpreter for simulation and start the real programs in it."""
import io
import os
import sys
import warnings

for _v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
    os.environ.setdefault(_v, "1")

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
_ready = False


def setup():
    """Idempotent: stubs on sys.path, fake MPI, I/O seams, repo first."""
    global _ready
    if _ready:
        return
    _ready = True
    sys.dont_write_bytecode = False
    if not sys.pycache_prefix:
        sys.dont_write_bytecode = True
    repo_py = os.path.join(REPO, "py")
    sys.path[:] = [p for p in sys.path if os.path.abspath(p or '.') != repo_py]
    sys.path.insert(0, repo_py)
    try:
        import numba                                     # noqa: F401
        if 'stub' not in getattr(numba, '__version__', ''):
            pass
    except ImportError:
        sys.path.append(os.path.join(HERE, "stubs"))
    # heavy third-party imports happen once, outside the simulation
    import numpy                                         # noqa: F401
    import numpy.lib.recfunctions                        # noqa: F401
    import scipy.optimize                                # noqa: F401
    import scipy.interpolate                             # noqa: F401
    import scipy.special                                 # noqa: F401
    import scipy.ndimage                                 # noqa: F401
    import healpy                                        # noqa: F401
    import astropy.io.ascii                              # noqa: F401
    import iminuit                                       # noqa: F401
    import fitsio                                        # noqa: F401
    import numba                                         # noqa: F401,F811
    import multiprocessing                               # noqa: F401
    import multiprocessing.pool                          # noqa: F401
    from . import fakempi, iosim, simpool
    fakempi.install()
    iosim.install()
    simpool.install()
    warnings.simplefilter("ignore")
    numpy.seterr(all="ignore")


class Shrink:
    """Scale the variance-fitter's *default* sizes to simulated-survey size.

    The shipped defaults (100 variance bins, 10,000 jackknife subsamples, at
    least 500 pixels from 50 quasars per bin) need ~0.7 GB per process and
    thousands of quasars.  The class takes these as constructor parameters and
    documented class attributes; only values the caller left at default change.
    """
    nvarbins = 14
    nsubsamples = 600
    min_num_pix = 4
    min_num_qso = 2


def shrink_varlss(mod, cfg):
    import functools
    import inspect
    V = mod.VarLSSFitter
    V.min_num_pix = cfg.min_num_pix
    V.min_num_qso = cfg.min_num_qso
    orig = V.__init__
    sig = inspect.signature(orig)

    @functools.wraps(orig)
    def init(self, *a, **kw):
        try:
            b = sig.bind(self, *a, **kw)
            names = b.arguments
            if cfg.nvarbins and 'nvarbins' in sig.parameters \
                    and 'nvarbins' not in names:
                kw['nvarbins'] = cfg.nvarbins
            if cfg.nsubsamples and 'nsubsamples' in sig.parameters \
                    and names.get('nsubsamples') is None:
                kw['nsubsamples'] = cfg.nsubsamples
        except TypeError:
            pass
        return orig(self, *a, **kw)
    V.__init__ = init


PROGRAMS = {
    'fit': 'qsonic.scripts.qsonic_fit',
    'calib': 'qsonic.scripts.qsonic_calib',
    'coadd': 'qsonic.scripts.qsonic_coadd_deltas',
}


class Result:
    """What a user can observe of one run."""

    def __init__(self, k):
        self.kernel = k
        self.exitcodes = [p.exitcode for p in k.procs]
        self.excs = [p.exc for p in k.procs]
        self.aborted = k.aborted
        self.deadlock = k.deadlock
        self.livelock = k.livelock
        self.transport = list(k.violations)
        self.fired = list(k.fired)
        self.crashed = any(f[0] == 'kill' for f in k.fired)

    @property
    def ok(self):
        return (not self.deadlock and not self.livelock and not self.transport
                and self.aborted is None
                and all(c == 0 for c in self.exitcodes))

    @property
    def failed_loudly(self):
        """The launcher reports failure to the user."""
        return (not self.deadlock and not self.livelock and not self.transport
                and (self.aborted is not None
                     or any(c not in (0, None) for c in self.exitcodes)))

    def describe(self):
        if self.transport:
            return "; ".join(f"{a}: {b}" for a, b in self.transport)
        if self.livelock:
            return "no progress within the step budget"
        if self.deadlock:
            w = ", ".join(f"rank {r} waits in {x}" for r, x in self.deadlock)
            e = [f"rank {i} ended with exit code {c}"
                 for i, c in enumerate(self.exitcodes) if c is not None]
            return f"hang: {w}" + ("; " + ", ".join(e) if e else "")
        if self.aborted is not None:
            e = getattr(self.kernel, 'abort_exc', None)
            return (f"aborted by rank {self.aborted[0]}: "
                    f"{type(e).__name__}: {e}")
        for i, e in enumerate(self.excs):
            if e is not None:
                return f"rank {i}: uncaught {type(e).__name__}: {e}"
        return f"exit codes {self.exitcodes}"

    def trace(self):
        t = getattr(self.kernel, 'abort_text', '')
        return t or "\n".join(p.exc_text for p in self.kernel.procs)


def run_program(prog, argv, nranks, seed, root, tape=None, faults=(),
                policy=None, shrink=Shrink, eager=None, wall=150.0,
                max_steps=200000, redseed=None, nsub=None):
    setup()
    if nsub is not None and shrink is not None:
        shrink = type('Shrink', (shrink,), dict(nsubsamples=nsub))
    from . import kernel as K
    k = K.Kernel(nranks, seed, root, tape=tape, faults=faults, policy=policy,
                 eager=eager, max_steps=max_steps, redseed=redseed)
    modname = PROGRAMS[prog]

    def target(rank):
        import importlib
        if prog in ('fit', 'calib'):
            pc = importlib.import_module('qsonic.picca_continuum')
            if shrink is not None:
                shrink_varlss(pc, shrink)
        m = importlib.import_module(modname)
        return m.main()

    return Result(_run(k, target, [prog] + [str(a) for a in argv], wall))


def run_functions(fn, nranks, seed, root, tape=None, faults=(), policy=None,
                  eager=None, wall=100.0, max_steps=100000):
    """Run fn(rank, comm) as every process (for API level workloads)."""
    setup()
    from . import kernel as K
    k = K.Kernel(nranks, seed, root, tape=tape, faults=faults, policy=policy,
                 eager=eager, max_steps=max_steps)

    def target(rank):
        from mpi4py import MPI
        return fn(rank, MPI.COMM_WORLD)
    return Result(_run(k, target, ['sim'], wall))


def _run(k, target, argv, wall):
    saved = sys.argv, sys.stderr, sys.stdout, sys.stdin
    sys.argv = argv
    k.stderr = io.StringIO()
    k.stdout = io.StringIO()
    sys.stderr, sys.stdout = k.stderr, k.stdout
    sys.stdin = io.StringIO()
    try:
        k.run(target, wall=wall)
    finally:
        sys.argv, sys.stderr, sys.stdout, sys.stdin = saved
    return k
