"""What belongs to the whole process stays as it is, and nothing depends on it."""
import atexit
import builtins
import decimal
import gc
import locale
import logging
import math
import os
import random
import resource
import shutil
import signal
import sys
import tempfile
import threading
import time
import types
import warnings

import numpy as np

from . import base, engine, gen, interp, prints, world
from .checks import C01, C02, Check, write_specs
from .checks2 import C12
from .checks4 import C14
from .runner import clone

EXCS = ['KeyboardInterrupt', 'MemoryError', 'InjectedError', 'InjectedBase']


class Sink(object):
    def write(self, text):
        return len(text)

    def flush(self):
        pass


# ---- the state of the process ---------------------------------------------------------------------------------

ARRAYS = []             # constants of the package


def seen():
    """what other threads would notice at once"""
    return dict(cwd=os.getcwd(), environment=dict(os.environ), stdin=id(sys.stdin), stdout=id(sys.stdout), stderr=id(sys.stderr),
                constants=[v.tobytes() for v in ARRAYS], locale=locale.setlocale(locale.LC_ALL), sigint=id(signal.getsignal(signal.SIGINT)), umask=umask())


def umask():
    m = os.umask(0o22)
    os.umask(m)
    return m


def own():
    """what belongs to the running thread"""
    d = decimal.getcontext()
    return {'numpy error settings': np.geterr(), 'numpy error handler': id(np.geterrcall()), 'numpy print settings': repr(sorted(
        (k, str(v)) for k, v in np.get_printoptions().items())), 'numpy buffer size': np.getbufsize(), 'decimal context': (
        d.prec, d.rounding, d.Emin, d.Emax), 'trace function': id(sys.gettrace()), 'profile function': id(sys.getprofile())}


MODULES = ['builtins', 'os', 'os.path', 'sys', 'math', 'time', 'random', 'threading', 'warnings', 'logging', 'numpy', 'numpy.linalg',
           'collections', 'functools', 'scipy.spatial', 'sympy', 'sympy.printing.str', 'pyNastran.bdf.bdf', 'composites.laminate',
           're', 'io', 'gc', 'tempfile', 'shutil', 'inspect', 'copy', 'itertools', 'json', 'pickle']
CLASSES = [('numpy', 'matrix'), ('sympy', 'Matrix'), ('sympy', 'Basic'), ('sympy', 'Expr'), ('sympy', 'Symbol'), ('sympy', 'Float'), ('sympy', 'Pow'),
           ('sympy', 'Mul'), ('sympy.printing.str', 'StrPrinter'), ('sympy.printing.printer', 'Printer'),
           ('pyNastran.bdf.bdf', 'BDF'), ('pyNastran.bdf.bdf', 'GRID'), ('pyNastran.bdf.bdf', 'CTRIA3'),
           ('composites.laminate', 'Laminate'), ('threading', 'Thread'), ('logging', 'Logger')]
VOLATILE = {('sys', n) for n in ('last_type', 'last_value', 'last_traceback', 'last_exc', 'stdout', 'stderr', 'stdin')}


def names():
    out = {}
    for m in MODULES:
        mod = sys.modules.get(m)
        if mod is not None:
            for k, v in list(vars(mod).items()):
                if (m, k) not in VOLATILE and not k.startswith('__') and callable(v):
                    out[m + '.' + k] = id(v)
    for m, c in CLASSES:
        cls = getattr(sys.modules.get(m), c, None)
        if cls is not None:
            for k, v in list(vars(cls).items()):
                if callable(v) or isinstance(v, (property, classmethod, staticmethod)):
                    out['%s.%s.%s' % (m, c, k)] = id(v)
    return out


def constants():
    """values of the constants of the package, and defaults of its functions"""
    out = {}
    for m, mod in list(sys.modules.items()):
        if m.startswith('meshless') and mod is not None:
            for k, v in list(vars(mod).items()):
                if isinstance(v, np.ndarray) and k.isupper():
                    out[m + '.' + k] = (str(v.dtype), v.shape, v.tobytes(), bool(v.flags.writeable))
                elif isinstance(v, (int, float, str)) and k.isupper():
                    out[m + '.' + k] = v
                elif isinstance(v, types.FunctionType) and v.__module__ == m:
                    out[m + '.' + k + ' defaults'] = repr((v.__defaults__, v.__kwdefaults__))
    return out


def full():
    from sympy.core.parameters import global_parameters as gp
    from sympy.assumptions.assume import global_assumptions
    from sympy.printing.printer import Printer
    root = logging.getLogger()
    st = seen()
    st.update({
        'random numbers': base.digest([repr(random.getstate())]),
        'numpy random numbers': base.digest([repr([np.asarray(x).tolist() for x in np.random.get_state()])]),
        'warning filters': repr(warnings.filters), 'showwarning': id(warnings.showwarning),
        'import path': list(sys.path), 'importers': [id(x) for x in sys.meta_path], 'path hooks': [id(x) for x in sys.path_hooks],
        'hooks': [id(x) for x in (sys.excepthook, sys.displayhook, threading.excepthook, sys.unraisablehook)],
        'recursion limit': sys.getrecursionlimit(), 'switch interval': sys.getswitchinterval(),
        'int digits': sys.get_int_max_str_digits(), 'garbage collection': (gc.isenabled(), gc.get_threshold(), gc.get_debug()),
        'threads': threading.active_count(),
        'logging': (root.level, [id(h) for h in root.handlers], root.manager.disable, root.disabled),
        'limits': [resource.getrlimit(getattr(resource, k)) for k in ('RLIMIT_NOFILE', 'RLIMIT_AS', 'RLIMIT_STACK', 'RLIMIT_CORE',
                                                                      'RLIMIT_CPU', 'RLIMIT_DATA')],
        'signals': [id(signal.getsignal(s)) for s in range(1, 65) if s not in (32, 33)],
        'exit functions': atexit._ncallbacks(), 'temporary directory': tempfile.tempdir, 'time zone': time.tzname,
        'sympy parameters': repr([gp.evaluate, gp.distribute, gp.exp_is_pow]), 'sympy assumptions': len(global_assumptions),
        'sympy print settings': repr(sorted(Printer._global_settings.items())),
        'priority': os.getpriority(os.PRIO_PROCESS, 0), 'cores': sorted(os.sched_getaffinity(0)),
        'children': children()})
    return st


def children():
    try:
        with open('/proc/self/task/%d/children' % os.getpid()) as f:
            return f.read().split()
    except OSError:
        return []


def changed(a, b):
    return sorted(k for k in a if b.get(k, a[k]) != a[k])


def settings(conf):
    """other settings of the process; calls must not notice"""
    s = conf or {}
    if 'seed' in s:
        random.seed(s['seed'])
        np.random.seed(s['seed'])
    if 'print' in s:
        np.set_printoptions(precision=s['print'], threshold=3, suppress=True)
    if 'env' in s:
        os.environ.update(s['env'])
        time.tzset()
    if 'recursion' in s:
        sys.setrecursionlimit(s['recursion'])
    if 'gc' in s:
        gc.enable()
        gc.set_threshold(s['gc'], 5, 5)
    if 'umask' in s:
        os.umask(s['umask'])
    if 'prec' in s:
        decimal.getcontext().prec = s['prec']
    if 'err' in s:
        np.seterr(all=s['err'])
    if 'warn' in s:
        warnings.simplefilter(s['warn'])
    if 'log' in s:
        logging.disable(s['log'])
    if 'optim' in s:
        sys.setswitchinterval(s['optim'])


def warm(where):
    """what other packages do on first use"""
    import sympy
    from pyNastran.bdf.bdf import read_bdf
    path = os.path.join(where, 'warm.bdf')
    with open(path, 'w') as f:
        f.write('$ pyNastran: punch=True\nGRID,1,,0.,0.,0.\nGRID,2,,1.,0.,0.\nGRID,3,,1.,1.,0.\nCTRIA3,1,1,1,2,3\nPSHELL,1,1,.1\nMAT1,1,1.+7,,.3\n')
    read_bdf(path, debug=False)
    os.remove(path)
    x, y = sympy.symbols('x y')
    str(sympy.Matrix([[x**2*y + sympy.sin(x)/3, 0.1*x]]).subs(x, y))
    sympy.cse(sympy.Matrix([[x**2*y + sympy.sin(x*y)]]))
    sympy.collect(x*y + x, x)
    np.linalg.norm(np.array([1., 2.]))
    repr(np.array([1.5, 2.]))


class Watch(engine.Sim):
    """looks at the state of the process at every simulated step"""
    ref = None
    spoilt = None

    def point(self, t, site, kind):
        if self.spoilt is None and self.ref is not None and kind == 'line':
            d = changed(self.ref, seen())
            if d:
                self.spoilt = d
        engine.Sim.point(self, t, site, kind)


class Guarded(interp.Interp):
    """an Interp that compares settings of the running thread and, where no other call is under way, of the process"""

    def exec(self, op, sim=None, t=0, k=0):
        a = own()
        if self.single:
            b, n, c = full(), names(), constants()
        rec = interp.Interp.exec(self, op, sim, t, k)
        d = changed(a, own())
        if self.single:
            d += changed(b, full()) + changed(n, names()) + changed(c, constants())
        rec['state'] = d
        return rec


def listing(*dirs):
    return sorted(os.path.join(os.path.basename(d), f) for d in dirs for f in os.listdir(d))


def child_state(plan, where, conf):
    home = [os.path.join(where, x + (conf or {}).get('dir', '')) for x in ('cwd', 'home', 'tmp')]
    for d in home:
        os.makedirs(d, exist_ok=True)
    os.chdir(home[0])
    for k in set(os.environ) - {'PATH', 'PYTHONPATH', 'VERIF_REPO', 'VERIF_SEED', 'PYTHONHASHSEED'}:
        del os.environ[k]
    os.environ.update(HOME=home[1], TMPDIR=home[2])
    tempfile.tempdir = None
    sys.stdout = Sink()
    warm(where)
    settings(conf)
    from meshless import constants as c
    ARRAYS[:] = [v for k, v in sorted(vars(c).items()) if isinstance(v, np.ndarray)]
    it = Guarded(plan, where, False)
    from meshless.dev import sympytools
    from meshless import interpolate
    del sympytools, interpolate
    for k, op in enumerate(plan['setup']):
        it.exec(op, None, 's', k)
    tasks = plan['tasks']
    sched = plan['sched']
    pol = engine.Policy(random.Random(sched.get('seed', 0)), sched['policy']) if sched.get('policy') else None
    sim = Watch(policy=pol, switches=sched.get('switches') or ([] if pol is None else None),
                calls=any(op.get('fault', {}).get('kind') == 'call' for t in tasks for op in t), max_steps=sched.get('max_steps', 3000000))
    sim.ref = seen()
    before = full(), names(), constants()
    sim.run([(lambda s, t, ops=ops: it.run_ops(ops, s, t)) for ops in tasks])
    if sim.abort and sim.abort.startswith('harness'):
        raise base.HarnessError(sim.abort + '\n' + getattr(sim, 'tb', ''))
    d = [x for a, b in zip(before, (full(), names(), constants())) for x in changed(a, b)]
    info = dict(steps=sim.step, switches=sim.switches, fired=sim.fired, abort=sim.abort, pairs=0, spoilt=sim.spoilt, changed=d,
                files=listing(*home))
    for r in it.recs:
        r.pop('points', None)
    return it.recs, info


class C19(Check):
    id = 'C19'
    rule = ('A run = a history of reading, analysing, printing, midpoint and helper calls, in one to four simulated threads, silent '
            'or not, some interrupted or failing at a sampled statement or call, executed twice, the second time under other settings '
            'of the process. What other threads see of the process is compared at every simulated step, everything else around '
            'calls and runs. Non-trivial: at least one call returned. Distinct: by operations, faults and switches.')
    assumptions = ['what pyNastran, sympy, numpy do to the process on first use happens before the first comparison',
                   'preemption and fault points as in C01 and C02']
    budget = {'quick': dict(runs=400, wall=150), 'thorough': dict(runs=9000, wall=700)}
    c01 = C01()
    c14 = C14()
    c12 = C12()
    c02 = C02()

    def gen(self, rng, idx, ctx):
        if rng.random() < 0.4:
            plan = self.c01.gen(rng, idx, ctx)
        else:
            plan = self.history(rng)
        for t in plan['tasks']:
            for op in t:
                if op['op'] in ('k0', 'kG', 'read') and rng.random() < 0.3:
                    op['verbose'] = True
                if op['op'] in ('read', 'k0', 'add', 'kG', 'print', 'mid', 'help') and rng.random() < 0.2:
                    span = dict(read=150, k0=1500, add=700, kG=900, print=60).get(op['op'], 12)
                    kind = rng.choice(['line', 'line', 'call'])
                    op['fault'] = dict(kind=kind, n=int(rng.random()**2*span), exc=rng.choice(EXCS))
        plan['conf'] = self.conf(rng)
        if len(plan['tasks']) == 1 and rng.random() < 0.5:         # at statements chosen among those that are reached
            vids = [op['id'] for op in plan['tasks'][0] if op['op'] in ('k0', 'add', 'kG') and not op.get('refuse')]
            if vids:
                for op in plan['tasks'][0]:
                    op.pop('fault', None)
                plan = self.c02.aim(rng, plan, ctx, rng.sample(vids, min(len(vids), rng.choice([1, 2]))))
        return plan

    def history(self, rng):
        plan = dict(specs=[], lams=gen.lams(rng), setup=[], tasks=[], args={}, sched={})
        for _ in range(rng.choice([1, 1, 2])):
            plan['specs'].append(world.gen_mesh(rng, size='tiny' if rng.random() < 0.8 else None))
        h = gen.Hist(rng, plan)
        for i in range(len(plan['specs'])):
            h.read('M%d' % i, i)
            h.props('M%d' % i, 'both')
        for n in range(rng.choice([2, 3, 5, 8])):
            name = 'M%d' % rng.randrange(len(plan['specs']))
            what = rng.choice(['k0', 'k0', 'add', 'kG', 'move', 'print', 'print', 'help', 'help', 'read', 'mid', 'refused',
                               'refused'])
            if what in ('add', 'kG') and not h.m[name]['fresh']:
                h.k0(name)
            if what == 'k0':
                h.k0(name)
            elif what == 'add':
                h.add(name, h.mat(name, ['zeros', 'rand']))
            elif what == 'kG':
                h.kG(name)
            elif what == 'move':
                h.move(name)
            elif what == 'print':
                h.emit(prints.gen_print(rng, name='p%d' % n, file=rng.random() < 0.6))
            elif what == 'help':
                h.emit(self.c14.call(rng, plan, 'a%d' % n, False))
            elif what == 'refused':
                r = rng.random()
                if r < 0.4:
                    self.c12.missing(rng, h, name)
                elif r < 0.7:                   # into a directory that does not exist
                    h.emit(prints.gen_print(rng, name='none/p%d' % n, file=True))
                else:
                    h.emit(dict(op='add', m=name, k=h.mat(name, ['zeros']), pfn=rng.random() < 0.5, method='none', keep=True))
            elif what == 'read':
                h.read('X%d' % n, rng.randrange(len(plan['specs'])))
            else:
                h.emit(dict(op='mid', m=name, e=rng.randrange(30)))
        plan['tasks'] = [h.ops]
        return plan

    def conf(self, rng):
        c = dict(seed=rng.randrange(1000), dir='-other', print=rng.choice([0, 1, 2, 3]), env=dict(
            TZ=rng.choice(['UTC', 'Asia/Tokyo', 'EST5EDT']), LANG=rng.choice(['C', 'de_DE.UTF-8']), COLUMNS='20', USER='nobody',
            DEBUG='1', VERBOSE='1', MESHLESS_DEBUG='1'), prec=rng.choice([3, 50]))
        for k, v in (('recursion', rng.choice([3000, 700])), ('gc', rng.choice([100, 700])), ('umask', 0o77),
                     ('err', rng.choice(['ignore', 'warn'])), ('warn', rng.choice(['ignore', 'always'])), ('log', 50),
                     ('optim', rng.choice([1e-6, 1.]))):
            if rng.random() < 0.6:
                c[k] = v
        return c

    def run_in(self, plan, ctx, where):
        recs, info = ctx.fork(child_state, plan, where, None)
        viol = self.judge_one(plan, recs, info)
        other = 0
        if viol is None:
            plan2 = plan
            if info['switches']:                # by the switches that happened
                plan2 = clone(plan)
                plan2['sched'] = dict(switches=info['switches'])
            recs2, info2 = ctx.fork(child_state, plan2, where, plan['conf'])
            viol = self.judge_one(plan, recs2, info2) or self.compare(plan, recs, recs2, info, info2)
            other = info2['steps']
        return self.result(plan, recs, info, viol, dict(stats=dict(steps_under_other_settings=other),
                                                       nontrivial=any(r.get('returned') for r in recs)))

    def judge_one(self, plan, recs, info):
        if info['abort'] in ('deadlock', 'steps'):
            return ['no progress', info['abort']]
        for r in recs:
            if r['state'] and not r.get('skip'):
                return ['state changed', '%s: %s (operation %s of thread %s)' % (', '.join(r['state'][:4]), r['op'], r['k'], r['t'])]
        if info['spoilt']:
            return ['state changed in between', ', '.join(info['spoilt'][:4])]
        if info['changed']:
            return ['state changed', ', '.join(info['changed'][:4])]
        names = {prints.filename(o) for t in [plan['setup']] + plan['tasks'] for o in t if o['op'] == 'print'}
        faulty = any(o.get('fault') for t in plan['tasks'] for o in t if o['op'] == 'print')
        extra = [f for f in info['files'] if f.split('/')[-1] not in names]
        if extra and not faulty:
            return ['files', ', '.join(extra[:3])]
        return None

    def compare(self, plan, recs, recs2, info, info2):
        if len(recs) != len(recs2):
            return ['depends on settings', '%d operations instead of %d' % (len(recs2), len(recs))]
        key = lambda r: (str(r['t']), r['k'])
        for a, b in zip(sorted(recs, key=key), sorted(recs2, key=key)):
            what = '%s (operation %s of thread %s)' % (a['op'], a['k'], a['t'])
            if (a['exc'] and a['exc'][0]) != (b['exc'] and b['exc'][0]):
                return ['depends on settings', '%s: %s instead of %s' % (what, b['exc'], a['exc'])]
            if isinstance(a['out'], np.ndarray) and isinstance(b['out'], np.ndarray):
                if a['out'].shape != b['out'].shape:
                    return ['depends on settings', '%s: shape' % what]
                with np.errstate(all='ignore'):
                    m = np.nanmax(np.abs(a['out'])) if a['out'].size else 0.
                    if not np.allclose(a['out'], b['out'], rtol=1e-9, atol=1e-11*m, equal_nan=True):
                        return ['depends on settings', '%s: other numbers' % what]
            elif isinstance(a['out'], str) or isinstance(b['out'], str):
                if a['out'] != b['out']:
                    return ['depends on settings', '%s: other text' % what]
            elif a.get('nids') != b.get('nids') or a.get('eids') != b.get('eids') or a.get('xyz') != b.get('xyz'):
                return ['depends on settings', '%s: another mesh' % what]
        return None


ALL = (C19,)
