"""Inputs are never modified; only the documented outputs are written."""
import copy
import hashlib
import os
import re

from sim import calcase, coaddcase, faults, fitcase, options
from sim.ctx import Inconclusive

ID = 'C18'
DOC = dict(fit=r'attributes\.fits|continuum_chi2_catalog\.fits|'
               r'delta-\d+\.fits',
           calib=None, coadd=r'delta-\d+\.fits')
FOREIGN = ('notes.txt', 'my-delta-1.fits', 'attributes.fits.orig',
           'delta-1.fits.bak', 'delta-1.fits.gz', 'old/delta-0.fits',
           'catalog.fits', '.hidden')


def case(r, i, tier):
    k = i % 8
    if k == 3:
        c = calcase.case(r, nmax=4)
        c['mode'] = 'calib'
    elif k in (5, 7):
        c = coaddcase.case(r)
        c['mode'] = 'coadd'
    else:
        c = fitcase.base_case(r, nmin=1, nmax=4)
        c['mode'] = 'fit'
        if k == 1 and c['world']['fmt'] == 'hpx':
            c['world'].update(exposures=r.randint(1, 3))
            c['opts'].update(exposures=r.choice(['after', 'before']),
                             model='picca')
        if k == 2 and c['world']['fmt'] != 'tile':
            c['opts']['save_by_hpx'] = True
        if k == 6:
            c['opts'].update(model='input', drop_targets=r.randint(0, 2),
                             drop_files=0)
            c['world']['fmt'] = 'hpx'
            c['world'].pop('petals', None)
    c['fault'] = r.choice(['none'] * 3 + ['io_error', 'disk_full', 'kill',
                                          'kill', 'memory'])
    c['u'] = [r.random(), r.random()]
    c['late'] = r.random() < .5
    c['grace'] = r.choice([0, 0, 1, 3, 10, 40])
    c['noout'] = c['mode'] == 'fit' and r.random() < .2
    c['foreign'] = r.sample(FOREIGN, r.randint(2, len(FOREIGN)))
    return c


def tree(root):
    """relative path -> digest of every file, '/' for a directory."""
    out = {}
    for d, dirs, files in os.walk(root):
        rel = os.path.relpath(d, root)
        out[rel] = '/'
        for f in files:
            p = os.path.join(d, f)
            key = os.path.normpath(os.path.join(rel, f))
            if os.path.islink(p):
                out[key] = 'link ' + os.readlink(p)
                continue
            with open(p, 'rb') as h:
                out[key] = hashlib.sha256(h.read()).hexdigest()
    return out


def judge(case, ctx):
    mode = case['mode']
    M = dict(fit=fitcase, calib=calcase, coadd=coaddcase)[mode]
    S = M.Setup(ctx, case)
    n = S.nranks() if mode == 'fit' else case['n']
    out = ctx.dir('out')
    for f in case['foreign']:
        p = os.path.join(out, f)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        with open(p, 'w') as h:
            h.write(f"not yours: {f}\n" * 400)
    doc = DOC[mode] or re.escape(os.path.basename(S.outfile('out')))
    cwd = os.getcwd()
    os.chdir(ctx.dir('cwd'))
    try:
        if case['noout']:
            argv = options.argv(S.W, S.o, S.p, '')
        else:
            argv = S.argv('out')
        prog = mode
        np_ = 1 if mode == 'coadd' else n

        def run(name, **kw):
            return ctx.run(name, prog, argv, np_, redseed=case['seed'], **kw)
        before = tree(ctx.root)
        r = run('probe')
        steps = [('', r)]
        if case['fault'] != 'none':
            if case.get('faults') is None:
                case['faults'] = [plan(case, r)]
            r = run('main', faults=case['faults'])
            f = r.fired[0] if r.fired else None
            steps.append((f" with {f[0]} on process {f[1]} at {f[3]} {f[4]}"
                          if f else '', r))
        after = tree(ctx.root)
    finally:
        os.chdir(cwd)
    for w, r in steps:
        ctx.note('run-ok' if r.ok else 'run-failed')
    what = f"{mode}{steps[-1][0]}"
    v = []
    for p in sorted(set(before) | set(after)):
        a, b = before.get(p), after.get(p)
        if a == b:
            continue
        if not case['noout'] and p.startswith('out/') and re.fullmatch(
                doc, p[4:]):
            if b is None:
                v.append(('removed', f"{what}: {p} is gone"))
            continue
        if a is None and p.startswith('out/') and not case['noout'] and \
                case['fault'] == 'kill' and re.search(doc, p[4:]):
            # a killed run may leave a temporary name of an output
            continue
        kind = ('created' if a is None else 'removed' if b is None
                else 'modified')
        v.append((kind, f"{what}: {p} is {kind}"))
    for _, r in steps:
        for p in sorted(r.kernel.writers):
            # a temporary file that is gone at the end is nobody's business
            ok = not case['noout'] and p.startswith('out/') and (
                re.fullmatch(doc, p[4:]) or p not in before)
            if not ok:
                v.append(('opened', f"{what}: {p} is opened for writing"))
    if case['noout']:
        ctx.note('no-output-dir')
    if not v and not any(r.ok or r.fired for _, r in steps):
        raise Inconclusive('program-gave-up')
    return v[:4]


def plan(case, r0):
    kind = case['fault']
    if kind == 'io_error':
        ev = faults.events(r0, faults.FAULTABLE)
    elif kind == 'disk_full':
        ev = faults.events(r0, faults.WRITES) or faults.events(r0)
    else:
        ev = faults.events(r0, None)
        ev = [e for e in ev if e[2] != 'exit' or kind == 'kill']
        if kind == 'kill' and case['late']:
            ev = [e for e in ev if e[2] in faults.WRITES] or ev
    e = faults.balanced(ev, *case['u'])
    if e is None:
        raise Inconclusive('no-event')
    f = dict(kind=kind, rank=e[0], ev=e[1])
    if kind == 'kill':
        f['grace'] = case['grace']
    return f


def reduce(case):
    if len(case.get('foreign') or []) > 1:
        for i in range(len(case['foreign'])):
            c = copy.deepcopy(case)
            del c['foreign'][i]
            yield c
    if case.get('fault') != 'none':
        c = copy.deepcopy(case)
        c['fault'] = 'none'
        c.pop('faults', None)
        yield c
