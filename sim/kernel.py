"""Deterministic simulation kernel.

Every simulated process (an MPI rank, or the single main process of a
multiprocessing program) is a real thread, but exactly one of them runs at any
time: the one holding the baton.  The baton changes hands only at seams
(message passing, file I/O, sleeping) and who gets it is decided by the
recorded schedule (a list of integers) or, beyond its end, by the seeded
policy.  A run is a pure function of (scenario, schedule, faults, code).
"""
import hashlib
import os
import random
import sys
import threading
import traceback


class Killed(BaseException):
    """The simulated process was killed; unwinds its thread."""


class SimUnsupported(BaseException):
    """The code used a facility the simulator does not model (harness error)."""


class HarnessError(Exception):
    pass


KERNEL = None        # the kernel of the run in progress in this process
_tls = threading.local()


def current():
    """(kernel, proc) if the calling thread is a simulated process."""
    p = getattr(_tls, 'proc', None)
    if p is None:
        return None, None
    return p.kernel, p


class Proc:
    def __init__(self, kernel, pid):
        self.kernel = kernel
        self.pid = pid
        self.go = threading.Semaphore(0)
        self.state = 'ready'          # ready | blocked | done
        self.cond = None              # predicate when blocked
        self.block_what = ''
        self.kill_now = False
        self.dead = False             # unwinding/unwound after a kill
        self.exitcode = None
        self.exc = None               # uncaught exception, if any
        self.exc_text = ''
        self.nev = 0                  # process-local event counter
        self.depth = 0                # seam re-entrancy
        self.modules = {}
        self.collseq = 0
        self.open_writers = {}        # id(FITS) -> (path, FITS)
        self.pyrand = None
        self.nprand = None
        self.clock_off = 0.0
        self.logs = []
        self.result = None
        self.stalled = 0

    def __repr__(self):
        return f"P{self.pid}"


IO_KINDS = ('open-r', 'open-w', 'read', 'write', 'close-r', 'close-w',
            'mkdir', 'list', 'pyopen-r', 'pyopen-w', 'unlink', 'rename')


class Kernel:
    """One simulated run."""

    def __init__(self, nprocs, seed, root, tape=None, faults=(), policy=None,
                 max_steps=200000, modules_prefix=('qsonic',), eager=None,
                 start_time=1.7e9, skews=True, redseed=None):
        self.n = nprocs
        self.seed = seed
        # order in which reductions combine the contributions
        self.redseed = seed if redseed is None else redseed
        self.root = os.path.realpath(root) if root else None
        self.rng = random.Random(f"sched-{seed}")
        self.aux = random.Random(f"aux-{seed}")
        self.tape_in = list(tape) if tape is not None else None
        self.tape = []
        self.faults = [dict(f) for f in faults]
        for f in self.faults:
            f['fired'] = 0
        self.fired = []               # (kind, proc, local event, path)
        self.procs = [Proc(self, i) for i in range(nprocs)]
        self.cur = None
        self.step = 0
        self.max_steps = max_steps
        self.log = []
        self.deadlock = None
        self.livelock = False
        self.aborted = None           # (proc, code) when Abort was called
        self.violations = []          # transport level: mismatched collectives
        self.finished = threading.Event()
        self.prefix = modules_prefix
        self.clock = start_time + self.aux.random() * 1e6
        self.clock0 = self.clock
        self.harness_error = None
        self.colls = {}
        self.mail = {}
        self.switches = 0
        self.policy = policy or self.rng.choice(
            ['uniform', 'uniform', 'sticky', 'roundrobin', 'starve', 'pct'])
        self.eager_p = (self.aux.choice([0.0, 0.5, 1.0])
                        if eager is None else eager)
        self.starved = self.rng.randrange(nprocs)
        self.prio = list(range(max(nprocs, 8)))
        self.rng.shuffle(self.prio)
        self.pct_points = set(self.rng.randrange(1, 2000) for _ in range(3))
        self.kill_all_at = None
        self.disk_full = False
        self.writers = {}             # path -> list of (proc, step) open-w
        self.op_counts = {}
        self.child = None
        self.pools = []
        self.worker_steps = []        # which pool worker moved
        if skews:
            for p in self.procs:
                p.clock_off = self.aux.uniform(-3600, 3600)

    # ---- event log -------------------------------------------------------
    def rel(self, path):
        if path is None:
            return ''
        path = os.path.abspath(str(path))
        if self.root and path.startswith(self.root):
            return path[len(self.root):].lstrip('/')
        return path

    def event(self, proc, kind, detail=''):
        self.step += 1
        proc.nev += 1
        self.clock += 1e-4 * (1 + (self.step * 7919) % 97)
        self.log.append((self.step, proc.pid, proc.nev, kind, detail))
        self.op_counts[kind] = self.op_counts.get(kind, 0) + 1
        if self.step > self.max_steps:
            self.livelock = True
            self.kill_everyone()
            raise Killed()

    def digest(self):
        h = hashlib.sha256()
        for e in self.log:
            h.update(repr(e).encode())
        return h.hexdigest()[:16]

    def interleaving(self):
        """Digest of the order in which processes took steps."""
        h = hashlib.sha256(bytes(e[1] for e in self.log))
        h.update(bytes(self.worker_steps))
        return h.hexdigest()[:16]

    # ---- scheduling ------------------------------------------------------
    def runnable(self):
        out = []
        for p in self.procs:
            if p.state == 'ready':
                out.append(p)
            elif p.state == 'blocked' and (p.kill_now or p.cond()):
                out.append(p)
        return out

    def choose(self, cands, cur):
        """Index into cands (current process first, then by id)."""
        n = len(cands)
        if n == 1:
            return 0
        i = len(self.tape)
        if self.tape_in is not None:
            c = self.tape_in[i] % n if i < len(self.tape_in) else 0
        else:
            c = self._policy_choice(cands, cur)
        self.tape.append(c)
        return c

    def _policy_choice(self, cands, cur):
        n = len(cands)
        pol = self.policy
        r = self.rng
        if pol == 'uniform':
            return r.randrange(n)
        if pol == 'sticky':
            return 0 if r.random() < 0.9 else r.randrange(n)
        if pol == 'roundrobin':
            last = cur.pid if cur else -1
            order = sorted(range(n), key=lambda k: (
                (cands[k].pid - last - 1) % max(self.n, 64)))
            return order[0]
        if pol == 'starve':
            others = [k for k in range(n) if cands[k].pid != self.starved]
            if others and r.random() < 0.98:
                return r.choice(others)
            return r.randrange(n)
        # pct: highest priority first, a few priority changes
        if self.step in self.pct_points and cur is not None:
            self.prio[cur.pid] = min(self.prio) - 1
        return max(range(n), key=lambda k: self.prio[cands[k].pid])

    def _pick(self, me):
        while True:
            if self.kill_all_at is not None and self.step >= self.kill_all_at:
                self.kill_everyone()
                self.kill_all_at = None
            run = self.runnable()
            if run:
                break
            alive = [p for p in self.procs if p.state != 'done']
            if not alive:
                return None
            if self.kill_all_at is not None:
                # the launcher tears the job down after a crash
                self.kill_everyone()
                self.kill_all_at = None
                continue
            # deadlock: nobody can ever move again
            if self.deadlock is None:
                self.deadlock = [
                    (p.pid, p.block_what) for p in alive]
            self.kill_everyone()
        run.sort(key=lambda p: (p is not me, p.pid))
        return run[self.choose(run, me)]

    def kill_everyone(self):
        for p in self.procs:
            if p.state != 'done':
                p.kill_now = True

    def _swap_out(self, p):
        mods = sys.modules
        p.modules = {k: mods.pop(k) for k in list(mods)
                     if k == 'qsonic' or k.startswith('qsonic.')}
        import numpy as np
        p.pyrand = random.getstate()
        p.nprand = np.random.get_state()

    def _swap_in(self, p):
        mods = sys.modules
        for k in list(mods):
            if k == 'qsonic' or k.startswith('qsonic.'):
                del mods[k]
        mods.update(p.modules)
        import numpy as np
        if p.pyrand is None:
            random.seed(f"{self.seed}-{p.pid}")
            np.random.seed((self.aux.getrandbits(30) + p.pid) % (2**31))
        else:
            random.setstate(p.pyrand)
            np.random.set_state(p.nprand)

    def _handover(self, me, nxt):
        """me gives the baton to nxt (me may be None at start/end)."""
        if nxt is me:
            self.cur = me
            me.state = 'ready'
            return
        if me is not None:
            self._swap_out(me)
        self.switches += 1
        self.cur = nxt
        nxt.state = 'ready'
        self._swap_in(nxt)
        nxt.go.release()
        if me is not None and me.state != 'done':
            me.go.acquire()

    def yield_(self, p):
        """Scheduling point for a process that can continue."""
        if p.kill_now and not p.dead:
            self.die(p)
        if p.dead:
            raise Killed()
        nxt = self._pick(p)
        self._handover(p, nxt)
        if p.kill_now and not p.dead:
            self.die(p)

    def block(self, p, cond, what):
        if p.kill_now and not p.dead:
            self.die(p)
        if p.dead:
            raise Killed()
        p.state, p.cond, p.block_what = 'blocked', cond, what
        nxt = self._pick(p)
        self._handover(p, nxt)
        p.cond = None
        if p.kill_now and not p.dead:
            self.die(p)

    def die(self, p):
        """Turn p into a dead process: nothing it does from now on counts."""
        p.dead = True
        for pool in self.pools:
            if not pool.closed:
                pool.crash(self)
        for fid, (path, closer) in list(p.open_writers.items()):
            closer(torn=True)
        p.open_writers.clear()
        raise Killed()

    # ---- faults ----------------------------------------------------------
    def fault_at(self, p, kind, path):
        """Consult the plan for the event just logged for p."""
        for f in self.faults:
            if f['fired'] and not f.get('repeat'):
                continue
            if f['kind'] == 'kill':
                if f['rank'] == p.pid and p.nev == f['ev']:
                    f['fired'] += 1
                    self.fired.append(('kill', p.pid, p.nev, kind, path))
                    grace = f.get('grace', 0)
                    p.kill_now = True
                    self.kill_all_at = self.step + grace
                    self.die(p)
            elif f['kind'] == 'io_error':
                hit = False
                if 'path' in f:
                    hit = (path == f['path'] and kind in f['ops']
                           and (f.get('rank') is None
                                or f['rank'] == p.pid))
                elif f.get('rank') == p.pid and p.nev == f.get('ev'):
                    hit = kind in IO_KINDS
                if hit:
                    f['fired'] += 1
                    self.fired.append(('io_error', p.pid, p.nev, kind, path))
                    raise OSError(
                        f.get('errno', 5),
                        f"simulated I/O error ({kind})", path)
            elif f['kind'] == 'disk_full':
                if f['rank'] == p.pid and p.nev == f['ev']:
                    f['fired'] += 1
                    self.disk_full = True
                    self.fired.append(('disk_full', p.pid, p.nev, kind, path))
            elif f['kind'] == 'clock_jump':
                if f['rank'] == p.pid and p.nev == f['ev']:
                    f['fired'] += 1
                    p.clock_off += f['by']
                    self.fired.append(('clock_jump', p.pid, p.nev, kind, path))
            elif f['kind'] == 'memory':
                if 'path' in f:
                    hit = (path == f['path'] and kind in f['ops']
                           and f['rank'] == p.pid and not f['fired'])
                else:
                    hit = f['rank'] == p.pid and p.nev == f['ev']
                if hit:
                    f['fired'] += 1
                    self.fired.append(('memory', p.pid, p.nev, kind, path))
                    raise MemoryError("simulated allocation failure")
        if self.disk_full and kind in (
                'open-w', 'write', 'close-w', 'pyopen-w', 'mkdir'):
            self.fired.append(('enospc', p.pid, p.nev, kind, path))
            raise OSError(28, "simulated: no space left on device", path)

    def seam(self, p, kind, path=None, fault=True):
        """A seam: log the event, maybe switch, maybe inject."""
        r = self.rel(path)
        if self.child is not None:      # inside a forked pool worker
            return self.child.seam(p, kind, r)
        if p.dead:
            raise Killed()
        self.yield_(p)
        self.event(p, kind, r)
        if fault:
            self.fault_at(p, kind, r)

    def now(self, p):
        return self.clock + p.clock_off

    # ---- running ---------------------------------------------------------
    def _body(self, p, target):
        _tls.proc = p
        p.go.acquire()
        try:
            if p.kill_now:
                self.die(p)
            p.result = target(p.pid)
            p.exitcode = 0
        except Killed:
            p.exitcode = None
        except SystemExit as e:
            c = e.code
            p.exitcode = c if isinstance(c, int) else (0 if c is None else 1)
        except SimUnsupported as e:
            self.harness_error = f"unsupported: {e}"
            self.kill_everyone()
        except BaseException as e:       # uncaught: interpreter exits with 1
            p.exitcode = 1
            p.exc = e
            p.exc_text = traceback.format_exc()
        finally:
            try:
                if not p.dead:
                    self.step += 1
                    self.log.append(
                        (self.step, p.pid, p.nev, 'exit', str(p.exitcode)))
                # a process that ends with files open: interpreter exit closes
                for fid, (path, closer) in list(p.open_writers.items()):
                    closer(torn=p.dead)
                p.open_writers.clear()
                p.state = 'done'
                p.dead_at_end = p.dead
                nxt = self._pick(p)
                if nxt is None:
                    self._swap_out(p)
                    self.finished.set()
                else:
                    self._handover(p, nxt)
            except BaseException:
                self.harness_error = traceback.format_exc()
                self.finished.set()

    def run(self, target, wall=120.0):
        """target(rank) is executed as each process.  Returns self."""
        global KERNEL
        if KERNEL is not None:
            raise HarnessError("nested simulation")
        KERNEL = self
        saved = {k: sys.modules.pop(k) for k in list(sys.modules)
                 if k == 'qsonic' or k.startswith('qsonic.')}
        st = random.getstate()
        threads = []
        try:
            for p in self.procs:
                t = threading.Thread(
                    target=self._body, args=(p, target), daemon=True)
                t.start()
                threads.append(t)
            first = self._pick(None)
            self._handover(None, first)
            if not self.finished.wait(wall):
                self.livelock = True
                self.wall_timeout = True
                self.kill_everyone()
                # give the spinning process a chance to reach a seam
                if not self.finished.wait(5.0):
                    self.harness_error = None
                    self.stuck = True
            for t in threads:
                t.join(0.0 if getattr(self, 'stuck', False) else 10)
        finally:
            KERNEL = None
            for pool in self.pools:
                if pool.workers:
                    pool._kill()
            for k in list(sys.modules):
                if k == 'qsonic' or k.startswith('qsonic.'):
                    del sys.modules[k]
            sys.modules.update(saved)
            random.setstate(st)
        if self.harness_error:
            raise HarnessError(self.harness_error)
        return self
