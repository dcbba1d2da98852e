"""Helpers shared by the properties that run the fitting program."""
import os

import numpy as np

from . import gen, options, oracle, outputs, world
from .ctx import Inconclusive
from .kernel import HarnessError


def base_case(r, fmt=None, worldkw=None, optkw=None, nmin=1, nmax=5):
    w = gen.fit_world(r, fmt, **(worldkw or {}))
    o = gen.fit_opts(r, w, **(optkw or {}))
    n = r.randint(nmin, nmax)
    c = dict(world=w, opts=o, n=n, seed=r.randrange(1 << 40),
             policy=r.choice(gen.POLICIES))
    return c


def ngroups(W, o):
    from .refmodel import Ref
    ref = Ref(W, o)
    g = set()
    for q in ref.selected():
        g.add(q['tile'] if W.P['fmt'] == 'tile' else q['hpx'])
    return len(g)


class Setup:
    """World written to <root>/in, options completed."""

    def __init__(self, ctx, case, inname='in'):
        self.ctx, self.case = ctx, case
        try:
            self.W = world.World(case['world']).write(
                os.path.join(ctx.root, inname))
            self.o = options.full(case['opts'])
            self.p = options.write_aux(self.W, self.o)
            self.ng = ngroups(self.W, self.o)
        except Exception as e:
            raise HarnessError(f"survey cannot be made: {e!r}")

    def nranks(self, n=None):
        """More processes than groups is a documented misuse."""
        n = self.case['n'] if n is None else n
        return max(1, min(n, self.ng))

    def argv(self, out):
        return options.argv(self.W, self.o, self.p,
                            os.path.join(self.ctx.root, out))

    def run(self, name, out, n=None, **kw):
        return self.ctx.run(name, 'fit', self.argv(out), self.nranks(n), **kw)

    def oracle(self, out, n=None):
        return oracle.FitOracle(self.W, self.o,
                                os.path.join(self.ctx.root, out),
                                self.nranks(n))


def alike_failure(r):
    """All processes ended with the same non-zero code by themselves."""
    return (not r.deadlock and not r.livelock and not r.transport
            and r.aborted is None and len(set(r.exitcodes)) == 1
            and r.exitcodes[0] not in (0, None)
            and all(e is None for e in r.excs))


def errors_logged(r):
    return [m for p in r.kernel.procs for lv, m in p.logs
            if lv in ('ERROR', 'CRITICAL')]


def degenerate_variance(S, out):
    """The fitted var_lss/eta of a failed run turn (nearly) negative
    somewhere, so that no weight formula makes sense with them."""
    try:
        att = {a[0]: a[2] for a in outputs.read_attr(
            os.path.join(S.ctx.root, out))}
        w = np.arange(S.o['wave1'], S.o['wave2'], 1.)
        for k, t in att.items():
            if k.startswith('VAR_FUNC'):
                x, dx = t['lambda'][0], t['lambda'][1] - t['lambda'][0]
                if np.any(oracle.cub_interp(w, x, dx, t['eta']) < 0.02) or \
                        np.any(oracle.cub_interp(w, x, dx, t['var_lss']) < 0):
                    return True
    except Exception:
        pass
    return False


def diagnose(S, out):
    """The attributes file may be incomplete when another process aborts, so
    look at the one a single process leaves."""
    S.run('diag', out + '-diag', n=1)
    return degenerate_variance(S, out + '-diag')


# what negative weights end in: a header value that is not finite, or no peak
# in the weighted mean of the resolution matrix
DEGENERATE = ('NaN or INDEF', 'out of bounds for axis 0')


def fault_free_failure(r, case, S=None, out='out'):
    """Judge a fault-free run that did not succeed.

    Tiny simulated surveys may not determine the variance functions or leave
    no valid continuum; the program says so and stops on every process alike.
    That is not judged (the runner bounds how often it may happen).  Anything
    else is a violation.
    """
    if r.ok:
        return []
    if alike_failure(r) and not case.get('strict'):
        raise Inconclusive('program-gave-up: ' + (
            errors_logged(r) or ['?'])[0][:60])
    if S is not None and not case.get('strict') and r.aborted is not None \
            and any(m in r.describe() for m in DEGENERATE) \
            and diagnose(S, out):
        raise Inconclusive('degenerate-variance')
    return [('run-fails', f"fault-free run does not succeed: {r.describe()}")]
