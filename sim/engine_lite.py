"""Process management without importing numpy (used by the drivers)."""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def python():
    for p in ('/opt/venv/bin/python', sys.executable):
        if os.path.exists(p):
            return p


def scratch_base():
    for d in ('/dev/shm', os.environ.get('TMPDIR') or '/tmp'):
        try:
            if os.path.isdir(d) and os.access(d, os.W_OK) and \
                    shutil.disk_usage(d).free > 1 << 30:
                return d
        except OSError:
            pass
    return '/tmp'


def new_scratch(tag):
    return tempfile.mkdtemp(prefix=f'qsonic-verif-{tag}-', dir=scratch_base())


def child_env(hashseed, scratch):
    e = dict(os.environ)
    e['PYTHONHASHSEED'] = str(hashseed)
    e['PYTHONPATH'] = HERE
    e['PYTHONPYCACHEPREFIX'] = os.path.join(scratch, 'pyc')
    e.pop('PYTHONDONTWRITEBYTECODE', None)
    for v in ("OMP_NUM_THREADS", "OPENBLAS_NUM_THREADS", "MKL_NUM_THREADS"):
        e[v] = '1'
    e['HOME'] = scratch
    return e


def spawn(args, hashseed, scratch, **kw):
    return subprocess.Popen([python(), '-W', 'ignore'] + args,
                            env=child_env(hashseed, scratch), cwd=HERE, **kw)


def replay(fn, d, scratch, timeout=300):
    p = spawn(['-m', 'sim.replay', fn, scratch],
              d['case'].get('hashseed', 0), scratch, stdout=subprocess.PIPE,
              stderr=subprocess.PIPE, text=True)
    try:
        o, e = p.communicate(timeout=timeout)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return 2, dict(error='timeout')
    try:
        out = json.loads(o.strip().splitlines()[-1])
    except (ValueError, IndexError):
        return 2, dict(error=e[-2000:])
    return p.returncode, out
