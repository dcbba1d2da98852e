"""Master-only reads reach every process or fail alike everywhere."""
import argparse
import functools
import os

import fitsio
import numpy as np

from sim import canon, faults, fitcase, gen

ID = 'C02'
C = canon.canon

VALUES = ['none', 'false', 'minus1', 'zero', 'empty-str', 'empty-list',
          'dict', 'array', 'array0', 'recarray', 'text', 'exception',
          'type', 'nan', 'bigarray', 'true', 'bytes', 'tuple']
RAISES = ['ValueError', 'OSError', 'KeyError', 'MemoryError', 'StopIteration',
          'ZeroDivisionError', 'RuntimeError', 'custom', 'UnicodeDecodeError',
          'AssertionError', 'Warning', 'EOFError', 'RecursionError']
CALLABLES = ['function', 'lambda', 'partial', 'object', 'bound', 'builtin',
             'nomodule', 'static']
READERS = ['catalog', 'sky', 'dla', 'noise', 'flux', 'remove']


def value(k):
    return {
        'none': None, 'false': False, 'true': True, 'minus1': -1, 'zero': 0,
        'empty-str': '', 'empty-list': [], 'dict': {'a': [1, {'b': None}]},
        'array': np.arange(7.), 'array0': np.array([]),
        'recarray': np.zeros(3, dtype=[('x', 'f8'), ('s', 'U4')]),
        'text': 'abc\n\u00e5', 'exception': ValueError('returned'),
        'type': ValueError, 'nan': float('nan'),
        'bigarray': np.arange(20000), 'bytes': b'\0\1', 'tuple': (1, -1)}[k]


class Custom(Exception):
    def __init__(self, a, b):
        super().__init__(a)
        self.b = b


def do_raise(k):
    if k == 'custom':
        raise Custom('x', 'y')
    if k == 'UnicodeDecodeError':
        b'\xff'.decode('ascii')
    if k == 'ZeroDivisionError':
        return 1 / 0
    if k == 'Warning':
        raise UserWarning('as an error')
    raise getattr(__import__('builtins'), k)(f'{k} raised')


def make_callable(kind, body):
    if kind == 'lambda':
        return lambda *a, **kw: body(*a, **kw)
    if kind == 'partial':
        return functools.partial(body)
    if kind == 'object':
        class Obj:
            def __call__(self, *a, **kw):
                return body(*a, **kw)
        return Obj()
    if kind == 'bound':
        class Obj2:
            def meth(self, *a, **kw):
                return body(*a, **kw)
        return Obj2().meth
    if kind == 'static':
        class Obj3:
            @staticmethod
            def meth(*a, **kw):
                return body(*a, **kw)
        return Obj3.meth

    def f(*a, **kw):
        return body(*a, **kw)
    if kind == 'nomodule':
        f.__module__ = None
    return f


def case(r, i, tier):
    c = dict(n=r.choice([1, 2, 2, 3, 4, 6]), seed=r.randrange(1 << 40),
             policy=r.choice(gen.POLICIES))
    m = i % 10
    if m == 9:
        # the whole program; one of its master-only inputs fails
        w = gen.fit_world(r, r.choice(['hpx', 'mock', 'tile']), nq=12,
                          npix=r.randint(3, 5), dwave=4.0)
        o = gen.fit_opts(r, w, sky=True, dla=True, noise_cal=True,
                         flux_cal=True, fid_meanflux=True,
                         fid_varlss=r.random() < 0.7, num_iterations=1,
                         model='picca', additive=r.random() < 0.5,
                         var_use_cov=False)
        return dict(mode='program', world=w, opts=o, n=r.randint(2, 4),
                    seed=c['seed'], policy=c['policy'],
                    u=[r.random(), r.random()])
    c['mode'] = 'api'
    ops = []
    for _ in range(r.randint(1, 4)):
        k = r.random()
        if k < 0.5:
            ops.append(dict(
                op='fnc', call=r.choice(CALLABLES),
                res=('v:' + r.choice(VALUES)) if r.random() < 0.5
                else ('r:' + r.choice(RAISES)),
                msg=r.choice(['', 'Error while reading.', 'm\u00fcsg {x} %s']),
                comm=r.random() < 0.8, args=r.random() < 0.5))
        elif k < 0.62:
            ops.append(dict(
                op='parse', argv=r.choice([
                    ['--a', '3', '--s', 'x y'], [], ['--a', 'z'],
                    ['--nope'], ['-h'], ['--a', '-1'], ['--flag']]),
                logic=r.choice([None, None, True, False])))
        elif k < 0.7:
            ops.append(dict(op='fitargs', argv=fit_argv(r)))
        else:
            ops.append(dict(
                op='read', what=r.choice(READERS), comm=r.random() < 0.8,
                bad=r.choice([None, None, None, 'missing', 'garbage',
                              'column', 'truncated', 'empty', 'spacing']),
                k=r.randrange(1 << 20), fmt=r.choice(['hpx', 'mock']),
                fault=([r.choice(['io_error', 'memory']), r.random()]
                       if r.random() < 0.3 else None)))
    # ops whose process ends in SystemExit come last
    ops.sort(key=lambda o: o['op'] in ('parse', 'fitargs'))
    for j, o in enumerate(ops[:-1]):
        if o['op'] == 'parse':
            o['argv'], o['logic'] = [], None
        elif o['op'] == 'fitargs':
            o['argv'] = ['-i', 'x', '--catalog', 'c']
    c['ops'] = ops
    return c


def fit_argv(r):
    """Options of the fitting program, often contradictory."""
    a = ['-i', 'x', '--catalog', 'c']
    for p, o in ((.3, ['--mock-analysis']), (.25, ['--tile-format']),
                 (.2, ['--save-by-hpx']), (.2, ['--true-continuum']),
                 (.15, ['--continuum-model', 'true']),
                 (.4, ['--fiducial-meanflux', 'f']),
                 (.4, ['--fiducial-varlss', 'f']),
                 (.2, ['--input-continuum-dir', 'd']),
                 (.2, ['--exposures', r.choice(['after', 'before'])]),
                 (.2, ['--wave1', '4000', '--wave2',
                       r.choice(['4000', '3900', '4100'])]),
                 (.2, ['--forest-w1', '1100', '--forest-w2',
                       r.choice(['1100', '1000', '1150'])]),
                 (.2, ['--arms', 'Z', 'B', 'B'])):
        if r.random() < p:
            a += o
    return a


def contradictory(a):
    def val(k, d):
        return float(a[a.index(k) + 1]) if k in a else d
    true = '--true-continuum' in a or 'true' in a
    tile, mock = '--tile-format' in a, '--mock-analysis' in a
    return bool(
        true and (not mock or '--fiducial-meanflux' not in a
                  or '--fiducial-varlss' not in a
                  or '--input-continuum-dir' in a)
        or val('--wave2', 6000.) <= val('--wave1', 3600.)
        or val('--forest-w2', 1180.) <= val('--forest-w1', 1040.)
        or tile and (mock or '--save-by-hpx' in a or '--exposures' in a))


# ---- files ----------------------------------------------------------------
def write_file(op, path):
    g = np.random.default_rng(op['k'])
    w, bad = op['what'], op['bad']
    if bad == 'missing':
        return
    if bad in ('garbage', 'empty'):
        with open(path, 'wb') as f:
            f.write(b'\x93 no { table 1 2\n x' * 30 if bad == 'garbage'
                    else b'')
        return
    if w == 'sky':
        with open(path, 'w') as f:
            f.write('# t a b f\n')
            for j in range(4):
                a = g.uniform(3600, 5000)
                f.write(f"l {a:.2f} {a + 3:.2f} {'OBS' if j % 2 else 'RF'}"
                        + ('' if bad != 'column' else ' 1 2') + "\n")
    elif w == 'remove':
        with open(path, 'w') as f:
            f.write('\n'.join(str(int(x)) if bad != 'column' else 'abc'
                              for x in g.integers(
                                  1, 10**9, int(g.integers(1, 4)))) + '\n')
    elif w == 'dla':
        a = np.zeros(6, dtype=[('TARGETID', 'i8'), (
            'Z_DLA' if bad != 'column' else 'ZQSO', 'f8'), ('NHI', 'f8')])
        a['TARGETID'] = g.integers(1, 5, 6)
        a['NHI'] = g.uniform(20, 21, 6)
        fitsio.write(path, a, extname='DLACAT', clobber=True)
    elif w in ('noise', 'flux'):
        x = np.linspace(3600, 5000, 12)
        if bad == 'spacing':
            x[int(g.integers(1, 12)):] += 40.
        with fitsio.FITS(path, 'rw', clobber=True) as f:
            if not (bad == 'column' and w == 'noise'):
                f.write([x, g.random(12), 1 + g.random(12)],
                        names=['lambda', 'var_lss', 'eta'],
                        extname='VAR_FUNC')
            if not (bad == 'column' and w == 'flux'):
                f.write([x, 1 + 0.1 * g.random(12)],
                        names=['lambda', 'stacked_flux'],
                        extname='STACKED_FLUX')
    else:
        n = 9
        dt = [('TARGETID', 'i8'), ('RA', 'f8'), ('DEC', 'f8')]
        if bad != 'column':
            dt += [('Z', 'f8')]
        if op['fmt'] != 'mock':
            dt += [('SURVEY', 'S6'), ('LASTNIGHT', 'i4')]
        a = np.zeros(n, dtype=dt)
        a['TARGETID'] = g.choice(10**6, n, replace=False)
        a['RA'] = g.uniform(0, 360, n)
        a['DEC'] = g.uniform(-60, 60, n)
        if bad != 'column':
            a['Z'] = g.uniform(2, 3, n)
        if op['fmt'] != 'mock':
            a['SURVEY'] = 'main'
            a['LASTNIGHT'] = 20210101
        fitsio.write(path, a, extname='ZCATALOG', clobber=True)
    if bad == 'truncated':
        n = os.path.getsize(path)
        with open(path, 'r+b') as f:
            f.truncate(max(1, min(n - 1, 2880 + 700) if w not in (
                'sky', 'remove') else 1))
            if w in ('sky', 'remove'):
                f.seek(0)
                f.write(b'x')


def do_read(op, path, comm, rank):
    w = op['what']
    if w == 'catalog':
        import qsonic.catalog
        return qsonic.catalog.mpi_read_quasar_catalog(
            path, comm, rank, is_mock=op['fmt'] == 'mock')
    if w == 'sky':
        import qsonic.masks
        return qsonic.masks.SkyMask(path, comm, rank)
    if w == 'dla':
        import qsonic.masks
        return qsonic.masks.DLAMask(path, None, comm, rank)
    if w == 'noise':
        import qsonic.calibration
        return qsonic.calibration.NoiseCalibrator(
            path, comm, rank, add_varlss=True)
    if w == 'flux':
        import qsonic.calibration
        return qsonic.calibration.FluxCalibrator(path, comm, rank)
    import qsonic.scripts.qsonic_calib as qc
    a = argparse.Namespace(
        remove_targetid_list=path, catalog=None, mock_analysis=False,
        remove_bal_qsos=False, keep_surveys=None)
    return qc.mpi_set_targetid_list_to_remove(a, comm, rank)


def run_ops(case, root, calls):
    def fn(rank, comm):
        from qsonic import QsonicException
        from qsonic.mpi_utils import mpi_fnc_bcast, mpi_parse
        out = []
        for j, op in enumerate(case['ops']):
            cm = comm if op.get('comm', True) else None
            try:
                if op['op'] == 'fnc':
                    def body(*a, j=j, op=op, **kw):
                        calls.append((j, rank, a, tuple(sorted(kw.items()))))
                        if op['res'][0] == 'r':
                            do_raise(op['res'][2:])
                        return value(op['res'][2:])
                    f = make_callable(op['call'], body)
                    a, kw = ((1, 'p'), {'q': 2}) if op['args'] else ((), {})
                    if op['call'] == 'builtin':
                        f = int
                        a, kw = (('12',), {}) if op['res'][0] == 'v' \
                            else (('x',), {})
                    v = mpi_fnc_bcast(f, cm, rank, op['msg'], *a, **kw)
                elif op['op'] == 'parse':
                    ap = argparse.ArgumentParser(prog='p')
                    ap.add_argument('--a', type=int, default=5)
                    ap.add_argument('--s', default='d')
                    ap.add_argument('--flag', action='store_true')
                    kw = {}
                    if op['logic'] is not None:
                        kw['args_logic_fnc'] = lambda x: op['logic']
                    v = vars(mpi_parse(ap, comm, rank, op['argv'], **kw))
                elif op['op'] == 'fitargs':
                    import qsonic.scripts.qsonic_fit as qf
                    v = vars(mpi_parse(
                        qf.get_parser(), comm, rank, op['argv'],
                        args_logic_fnc=qf.args_logic_fnc_qsonic_fit))
                else:
                    v = do_read(op, os.path.join(root, f'f{j}'), cm, rank)
                out.append(('ok', C(v)))
            except QsonicException as e:
                out.append(('qsonic', str(e)))
            except SystemExit as e:
                out.append(('exit', e.code))
            except Exception as e:
                out.append(('exc', f"{type(e).__name__}: {e}"))
            # a barrier in the program is not needed: the next operation
            # starts whenever this process gets there
        return out
    return fn


def judge(case, ctx):
    if case['mode'] == 'program':
        return judge_program(case, ctx)
    n = case['n']
    for j, op in enumerate(case['ops']):
        if op['op'] == 'read':
            write_file(op, os.path.join(ctx.root, f'f{j}'))
    # what a plain call gives
    ref = dict(case)
    ref['ops'] = [dict(o, comm=False) if o['op'] in ('fnc', 'read') else o
                  for o in case['ops']]
    rr = ctx.run_fn('plain', run_ops(ref, ctx.root, []), 1)
    if not rr.ok:
        return [('run-fails', f"without communicator: {rr.describe()}")]
    plain = rr.kernel.procs[0].result
    fl = case.get('faults')
    if fl is None:
        fl = []
        for j, op in enumerate(case['ops']):
            if op.get('fault') and op.get('comm'):
                ev = [e for e in faults.events(rr) if e[3] == f'f{j}']
                e = faults.pick(ev, op['fault'][1])
                if e:
                    # path based: local event numbers differ between runs
                    fl.append(dict(kind=op['fault'][0], path=f'f{j}',
                                   ops=[e[2]], rank=0, op=j))
        case['faults'] = fl
    calls = []
    r = ctx.run_fn('main', run_ops(case, ctx.root, calls), n, faults=fl)
    if not r.ok:
        return [('run-fails', f"{r.describe()}; ops {case['ops']}")]
    res = [p.result for p in r.kernel.procs]
    out = []
    hit = set()
    for k in r.fired:
        if k[4].startswith('f'):
            hit.add(int(k[4][1:]))
    for j, op in enumerate(case['ops']):
        got = [x[j] for x in res]
        ctx.note(op['op'] + '-' + got[0][0])
        if any(g != got[0] for g in got) and not (j in hit
                                                  and not op.get('comm')):
            out.append(('not-alike', f"{desc(op)}: processes see "
                        f"{[str(g)[:80] for g in got]}"))
            continue
        if j in hit:
            if op.get('comm') and got[0][0] != 'qsonic' and \
                    got[0] != plain[j]:
                out.append(('wrong-error', f"{desc(op)} with a failing read:"
                            f" {str(got[0])[:120]}"))
            continue
        if op['op'] == 'fnc':
            if op['res'][0] == 'r':
                want = ('qsonic', op['msg'])
            elif op['call'] == 'builtin':
                want = ('ok', C(12))
            else:
                want = ('ok', C(value(op['res'][2:])))
            if got[0] != want:
                out.append(('wrong-result', f"{desc(op)}: "
                            f"{str(got[0])[:120]}, expected "
                            f"{str(want)[:120]}"))
            if op['call'] != 'builtin':
                who = [k[1] for k in calls if k[0] == j]
                exp = [0] if op['comm'] else list(range(n))
                if sorted(who) != exp:
                    out.append(('evaluations', f"{desc(op)}: evaluated on "
                                f"processes {sorted(who)}"))
                a = ((1, 'p'), (('q', 2),)) if op['args'] else ((), ())
                if any((k[2], k[3]) != a for k in calls if k[0] == j):
                    out.append(('arguments', f"{desc(op)}: wrong arguments"))
        else:
            if got[0] != plain[j]:
                out.append(('differs-from-plain', f"{desc(op)}: "
                            f"{str(got[0])[:150]}, plain call "
                            f"{str(plain[j])[:150]}"))
            if op['op'] == 'fitargs':
                bad = contradictory(op['argv'])
                if bad != (got[0][0] == 'exit'):
                    out.append(('options', f"{op['argv']}: "
                                f"{str(got[0])[:150]}"))
            if op['op'] == 'read' and op['bad'] in (
                    'missing', 'garbage', 'column') and \
                    got[0][0] != 'qsonic':
                out.append(('wrong-error', f"{desc(op)}: "
                            f"{str(got[0])[:150]}"))
            if op['op'] == 'read' and op['bad'] == 'spacing' and op[
                    'what'] in ('noise', 'flux') and got[0][0] == 'ok':
                out.append(('accepted', f"{desc(op)}: {got[0]}"))
            if op['op'] == 'read' and op['bad'] is None and \
                    got[0][0] != 'ok':
                out.append(('refused', f"{desc(op)}: {got[0]}"))
    return out[:5]


def desc(op):
    return ' '.join(f"{k}={v}" for k, v in op.items()
                    if v is not None)


AUX = ('cat.fits', 'sky.txt', 'dla.fits', 'calib.fits', 'fid.fits')


def judge_program(case, ctx):
    S = fitcase.Setup(ctx, case)
    if S.nranks() < 2 and not case.get('faults'):
        case['n'] = 2
    fl = case.get('faults')
    if not fl:
        r0 = S.run('probe', 'out0')
        ev = [e for e in faults.events(r0, ranks=[0])
              if os.path.basename(e[3]) in AUX
              and e[2] in ('open-r', 'read', 'pyopen-r')]
        e = faults.balanced(ev, *case['u'])
        if e is None:
            raise fitcase.Inconclusive('no-event')
        fl = [dict(kind='io_error', path=e[3], ops=[e[2]], rank=0,
                   repeat=True)]
        case['faults'] = fl
        # a master-only input is read by the master only
        other = [x for x in faults.events(r0, ranks=range(1, S.nranks()))
                 if os.path.basename(x[3]) in AUX]
        if other:
            return [('not-master-only', f"process {other[0][0]} reads "
                     f"{other[0][3]} itself")]
    r = S.run('main', 'out', faults=fl)
    if not r.fired:
        raise fitcase.Inconclusive('fault-not-reached')
    ctx.note('program-' + os.path.basename(fl[0]['path']))
    if not fitcase.alike_failure(r):
        return [('not-alike', f"master cannot read {fl[0]['path']}: "
                 f"{r.describe()}")]
    return []
