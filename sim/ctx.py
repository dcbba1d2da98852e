"""What one simulated case needs: scratch space, runs, bookkeeping."""
import os
import shutil
import sys

from . import launch


class Inconclusive(Exception):
    """The case cannot be judged (not a violation)."""


class Ctx:
    def __init__(self, case, scratch, companion=None):
        self.case = case
        self.root = os.path.join(scratch, 'case')
        shutil.rmtree(self.root, ignore_errors=True)
        os.makedirs(self.root)
        self.companion = companion
        self.stats = dict(runs=0, sim_s=0.0, steps=0, switches=0, faults={},
                          ops={}, inter=[], notes={}, incon={}, judged=0)
        self.tapes = {}
        self.digests = {}

    def dir(self, name):
        d = os.path.join(self.root, name)
        os.makedirs(d, exist_ok=True)
        return d

    def wipe(self, name):
        shutil.rmtree(os.path.join(self.root, name), ignore_errors=True)

    def note(self, k, n=1):
        self.stats['notes'][k] = self.stats['notes'].get(k, 0) + n

    # -- runs ----------------------------------------------------------------
    def _kw(self, name, kw):
        c = self.case
        if kw.get('tape') is None:
            kw['tape'] = c.get('tapes', {}).get(name)
        kw.setdefault('seed', f"{c.get('seed', 0)}-{name}")
        kw.setdefault('policy', c.get('policy'))
        kw.setdefault('wall', 100.0)
        return kw

    def run(self, name, prog, argv, n, root=None, **kw):
        kw = self._kw(name, kw)
        r = launch.run_program(prog, argv, n, root=root or self.root, **kw)
        return self._record(name, r)

    def run_fn(self, name, fn, n, root=None, **kw):
        kw = self._kw(name, kw)
        r = launch.run_functions(fn, n, root=root or self.root, **kw)
        return self._record(name, r)

    def run_other(self, name, prog, argv, n, salt=0, **kw):
        """Run in an interpreter with another hash seed."""
        kw = self._kw(name, kw)
        d = self.companion.call(dict(prog=prog, argv=[str(a) for a in argv],
                                     n=n, root=self.root, kw=kw), salt)
        s = self.stats
        s['runs'] += 1
        for k in ('sim_s', 'steps', 'switches'):
            s[k] += d[k]
        for f in d['fired']:
            s['faults'][f[0]] = s['faults'].get(f[0], 0) + 1
        for a, b in d['ops'].items():
            s['ops'][a] = s['ops'].get(a, 0) + b
        s['inter'].append(d['inter'])
        self.tapes[name] = d['tape']
        self.digests[name] = d['digest']
        return Other(d)

    def _record(self, name, r):
        k = r.kernel
        s = self.stats
        s['runs'] += 1
        s['sim_s'] += k.clock - k.clock0
        s['steps'] += k.step
        s['switches'] += k.switches
        for f in k.fired:
            s['faults'][f[0]] = s['faults'].get(f[0], 0) + 1
        for a, b in k.op_counts.items():
            s['ops'][a] = s['ops'].get(a, 0) + b
        s['inter'].append(k.interleaving())
        self.tapes[name] = list(k.tape)
        self.digests[name] = k.digest()
        if getattr(k, 'wall_timeout', False):
            if not self.case.get('_retry'):
                raise Inconclusive('wall-timeout')
        if getattr(k, 'stuck', False):
            # a thread spins outside every seam; this interpreter is unusable
            sys.modules['__main__'].__dict__['_stuck'] = True
        return r


class Other:
    """Result of a run in the companion interpreter."""

    def __init__(self, d):
        self.ok, self.failed_loudly = d['ok'], d['loud']
        self.text, self.fired = d['describe'], d['fired']
        self.exitcodes = d['exitcodes']

    def describe(self):
        return self.text


def merge(a, b):
    for k, v in b.items():
        if isinstance(v, dict):
            d = a.setdefault(k, {})
            for x, y in v.items():
                d[x] = d.get(x, 0) + y
        elif isinstance(v, list):
            a.setdefault(k, []).extend(v)
        else:
            a[k] = a.get(k, 0) + v
    return a
