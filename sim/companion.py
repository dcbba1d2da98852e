"""Runs programs for a worker in an interpreter with another hash seed."""
import json
import os
import sys


def main():
    from . import launch
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    launch.setup()
    for line in sys.stdin:
        q = json.loads(line)
        r = launch.run_program(q['prog'], q['argv'], q['n'], root=q['root'],
                               **q['kw'])
        k = r.kernel
        out.write(json.dumps(dict(
            ok=r.ok, exitcodes=r.exitcodes, describe=r.describe(),
            aborted=r.aborted is not None,
            loud=r.failed_loudly, sim_s=k.clock - k.clock0, deadlock=bool(r.deadlock),
            alike=(r.aborted is None and len(set(r.exitcodes)) == 1),
            steps=k.step, switches=k.switches,
            inter=k.interleaving(), tape=list(k.tape), digest=k.digest(),
            fired=[list(x) for x in k.fired], ops=k.op_counts)) + '\n')
        out.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
