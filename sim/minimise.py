"""Shrink a failing case while it keeps failing with the same class.

usage: python -m sim.minimise PROP IN.json OUT.json CLASS SECONDS SCRATCH
OUT.json is rewritten at every improvement.
"""
import copy
import json
import os
import sys
import time


def generic(case):
    """Simpler variants, most drastic first."""
    for k in ('faults',):
        f = case.get(k)
        if isinstance(f, list) and f:
            if len(f) > 1:
                for i in range(len(f)):
                    c = copy.deepcopy(case)
                    del c[k][i]
                    yield c
    if case.get('n', 1) > 1:
        for n in sorted({1, 2, case['n'] - 1}):
            if n < case['n']:
                c = copy.deepcopy(case)
                c['n'] = n
                yield c
    w = case.get('world')
    if isinstance(w, dict):
        for k, lo in (('nq', 6), ('npix', 2), ('extra_rows', 0), ('nout', 0),
                      ('nother', 0), ('missing', 0), ('lowsnr', 0),
                      ('negflux', 0), ('deadpix', 0.0), ('badpix', 0.0),
                      ('zero_arm', 0), ('missing_groups', 0),
                      ('expo_missing', 0)):
            if w.get(k, lo) > lo:
                c = copy.deepcopy(case)
                c['world'][k] = lo
                yield c
                if isinstance(w[k], int) and w[k] - lo > 2:
                    c = copy.deepcopy(case)
                    c['world'][k] = (w[k] + lo) // 2
                    yield c
    o = case.get('opts')
    if isinstance(o, dict):
        from . import options
        for k in sorted(o):
            if k in options.DEFAULT and o[k] != options.DEFAULT[k]:
                c = copy.deepcopy(case)
                c['opts'][k] = options.DEFAULT[k]
                yield c
    ops = case.get('ops')
    if isinstance(ops, list) and len(ops) > 1:
        h = len(ops) // 2
        for a, b in ((0, h), (h, len(ops))):
            c = copy.deepcopy(case)
            del c['ops'][a:b]
            yield c
        for i in range(len(ops)):
            c = copy.deepcopy(case)
            del c['ops'][i]
            yield c
    for name, t in sorted(case.get('tapes', {}).items()):
        nz = [i for i, x in enumerate(t) if x]
        if not nz:
            continue
        c = copy.deepcopy(case)
        c['tapes'][name] = []
        yield c
        h = nz[len(nz) // 2]
        for a, b in ((0, h), (h, len(t))):
            c = copy.deepcopy(case)
            c['tapes'][name][a:b] = [0] * (b - a)
            yield c
        if len(nz) <= 12:
            for i in nz:
                c = copy.deepcopy(case)
                c['tapes'][name][i] = 0
                yield c


def trim(case):
    for name, t in case.get('tapes', {}).items():
        while t and t[-1] == 0:
            t.pop()
    return case


def main():
    prop, src, dst, cls, secs, scratch = sys.argv[1:7]
    now = time.time
    end = now() + float(secs)
    from . import engine, launch
    launch.setup()
    mod = engine.load(prop)
    case = json.load(open(src))
    comp = engine.Companion(
        (int(case.get('hashseed', 0)) * 7919 + 13) % 4294967295, scratch)

    def fails(c):
        o = engine.execute(mod, c, scratch, comp)
        if any(v[0] == cls for v in o.viol):
            return o
        return None
    best = fails(case)
    tries = 1
    if best is None:
        os._exit(1)

    def save(o):
        d = dict(case=trim(o.case), viol=[v for v in o.viol if v[0] == cls],
                 digests=o.digests, tries=tries)
        with open(dst + '.tmp', 'w') as f:
            json.dump(d, f)
        os.replace(dst + '.tmp', dst)
    save(best)
    progress = True
    while progress and now() < end:
        progress = False
        gens = [generic(best.case)]
        if hasattr(mod, 'reduce'):
            gens.insert(0, mod.reduce(best.case))
        for g in gens:
            for c in g:
                if now() > end:
                    break
                tries += 1
                o = fails(trim(c))
                if o is not None:
                    # tapes recorded again may be longer; keep the short ones
                    for k, t in c.get('tapes', {}).items():
                        if k in o.case['tapes']:
                            o.case['tapes'][k] = t
                    best = o
                    save(best)
                    progress = True
                    break
            if progress:
                break
    comp.close()
    os._exit(0)


if __name__ == '__main__':
    main()
