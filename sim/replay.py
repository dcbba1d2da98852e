"""Replay a violation file in this (fresh) interpreter.

usage: python -m sim.replay FILE SCRATCH   -> exit 1 if it reproduces exactly
"""
import json
import os
import sys


def main():
    fn, scratch = sys.argv[1:3]
    from . import engine, launch
    d = json.load(open(fn))
    launch.setup()
    mod = engine.load(d['property'])
    comp = engine.Companion(
        (int(d['case'].get('hashseed', 0)) * 7919 + 13) % 4294967295, scratch)
    o = engine.execute(mod, d['case'], scratch, comp)
    comp.close()
    hit = [v for v in o.viol if v[0] == d['class']]
    if d.get('digests') is None:
        same = True
    else:
        same = all(o.digests.get(k) == x for k, x in d['digests'].items())
    print(json.dumps(dict(hit=hit, same=same, other=o.viol[:3],
                          incon=o.incon, harness=o.harness,
                          digests=o.digests)))
    sys.stdout.flush()
    os._exit(1 if hit and same else 0)


if __name__ == '__main__':
    main()
