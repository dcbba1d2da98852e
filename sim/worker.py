"""One search worker: cases w, w+nw, w+2nw, ... of a property."""
import json
import os
import sys
import time


def main():
    prop, tier, seed, w, nw, ncases, start, deadline, out, scratch = \
        sys.argv[1:11]
    seed, w, nw, ncases, start = map(int, (seed, w, nw, ncases, start))
    deadline = float(deadline)
    now = time.time
    from . import engine, launch
    launch.setup()
    mod = engine.load(prop)
    hs = int(os.environ['PYTHONHASHSEED'])
    comp = engine.Companion((hs * 7919 + 13) % 4294967295, scratch)
    stats = {}
    nviol = 0
    f = open(out, 'a')

    def emit(**d):
        f.write(json.dumps(d) + '\n')
        f.flush()
    code = 0
    for idx in range(start, ncases, nw):
        if now() > deadline:
            emit(idx=idx, stop='deadline')
            break
        c = engine.make_case(mod, seed, idx, tier)
        c['hashseed'] = hs
        t = now()
        o = engine.execute(mod, c, scratch, comp)
        engine.merge(stats, o.stats)
        d = dict(idx=idx, wall=round(now() - t, 3))
        if o.viol:
            # a violation counts only if the same case shows it again
            o2 = engine.execute(mod, o.case, scratch, comp)
            d.update(viol=o.viol, case=o.case, digests=o.digests,
                     again=[list(v) for v in o2.viol],
                     same=o2.digests == o.digests)
            nviol += 1
        if o.incon:
            d['incon'] = o.incon
            d['case'] = o.case
        if o.harness:
            d['harness'] = o.harness
            d['case'] = o.case
        emit(**d)
        if sys.modules['__main__'].__dict__.get('_stuck'):
            code = 3
            break
        if nviol >= 2:
            break
    stats['inter'] = sorted(set(stats.get('inter', [])))
    emit(stats=stats)
    f.close()
    comp.close()
    os._exit(code)


if __name__ == '__main__':
    main()
