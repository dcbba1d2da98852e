"""Execute one case of one property and classify the outcome."""
import copy
import importlib
import json
import random
import shutil
import subprocess
import traceback

from . import kernel as K
from .ctx import Ctx, Inconclusive, merge
from .engine_lite import new_scratch, spawn, HERE


def load(prop):
    return importlib.import_module(f'props.{prop.lower()}')


def make_case(mod, seed, idx, tier):
    r = random.Random(f"{mod.ID}-{seed}-{idx}")
    c = mod.case(r, idx, tier)
    c['idx'] = idx
    # everything in a case survives a round trip through its replay file
    return json.loads(json.dumps(c))


class Outcome:
    def __init__(self):
        self.viol = []
        self.incon = None
        self.harness = None
        self.case = None       # with tapes and resolved faults
        self.stats = {}
        self.digests = {}


def execute(mod, case, scratch, companion=None):
    """Run and judge a case; never raises for what the code under test does."""
    o = Outcome()
    c = copy.deepcopy(case)
    ctx = Ctx(c, scratch, companion)
    try:
        o.viol = [(str(a), str(b)[:600]) for a, b in mod.judge(c, ctx)]
        ctx.stats['judged'] += 1
    except Inconclusive as e:
        o.incon = str(e)
    except (K.HarnessError, K.SimUnsupported) as e:
        o.harness = f"{type(e).__name__}: {e}"
    except MemoryError as e:
        o.harness = f"MemoryError: {e}"
    except Exception as e:
        tb = traceback.format_exc()
        o.viol = [('malformed-output',
                   f"outputs cannot be interpreted: {type(e).__name__}: {e}"
                   f" [{tb.strip().splitlines()[-3].strip()}]"[:600])]
        o.tb = tb
    c['tapes'] = ctx.tapes
    o.case = c
    o.stats = ctx.stats
    o.digests = ctx.digests
    shutil.rmtree(ctx.root, ignore_errors=True)
    return o


class Companion:
    """A second interpreter with another hash seed that runs programs on
    request (lazily started)."""

    def __init__(self, hashseed, scratch):
        self.hashseed, self.scratch = hashseed, scratch
        self.p = {}

    def call(self, req, salt=0):
        p = self.p.get(salt)
        if p is None or p.poll() is not None:
            p = self.p[salt] = spawn(
                ['-m', 'sim.companion'],
                (self.hashseed + 104729 * salt) % 4294967295, self.scratch,
                stdin=subprocess.PIPE, stdout=subprocess.PIPE, text=True)
        p.stdin.write(json.dumps(req) + '\n')
        p.stdin.flush()
        line = p.stdout.readline()
        if not line:
            raise K.HarnessError('companion interpreter ended')
        return json.loads(line)

    def close(self):
        for p in self.p.values():
            try:
                p.stdin.close()
                p.wait(5)
            except Exception:
                p.kill()


__all__ = ['load', 'make_case', 'execute', 'new_scratch', 'spawn', 'merge',
           'Companion', 'HERE']
