"""What is let go of is released: memory, files and work over long histories."""
import gc
import os
import random
import shutil
import sys
from collections import Counter, OrderedDict, defaultdict, deque

import numpy as np

from . import base, engine, ids, prints, world
from .checks import Check
from .gen import METHODS
from .runner import clone

EXCS = ['KeyboardInterrupt', 'MemoryError', 'InjectedError', 'InjectedBase']
FIRST, STEP = 40, 40            # cycles before the first count, between counts
HOLD = (list, dict, set, OrderedDict, deque, defaultdict)
WHAT = ['memory', 'containers', 'open files']
RATE = 0.7                      # blocks of memory per cycle that count as growth


class Cycle(object):
    """one round of reading, editing, analysing, printing, as the plan says, on values that no other round has"""

    def __init__(self, plan, where):
        self.plan = plan
        self.where = where
        self.kept = None            # the mesh of plans that keep one
        self.raised = Counter()

    def spec(self, i):
        s = clone(self.plan['specs'][0])
        f = 1. + 1e-3*i
        s['pts'] = [[f*v for v in p] for p in s['pts']]
        return s

    def arrays(self, i):
        return world.points_and_tri(self.spec(i))

    def read(self, i, t=0):
        if self.plan['specs'][0]['src'] != 'deck':
            return world.read(self.plan['specs'][0], arrays=self.arrays(i), verbose=self.plan['loud'])
        d = os.path.join(self.where, 'deck%d_%d' % (i if self.plan['rename'] else 0, t))
        path = world.write_deck(self.spec(i), d)
        try:
            return world.read(self.plan['specs'][0], os.path.dirname(path), verbose=self.plan['loud'])
        finally:
            shutil.rmtree(d)

    def bad_deck(self, i, how):
        """a deck that cannot be read"""
        from meshless.espim.read_mesh import read_mesh
        d = os.path.join(self.where, 'bad')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, 'main.bdf')
        text = '$ pyNastran: punch=True\nGRID,1,,0.,0.,0.\nGRID,2,,%r,0.,0.\nGRID,3,,1.,1.,0.\nGRID,4,,0.,1.,0.\n' % (1. + i)
        text += {'quad': 'CQUAD4,1,1,1,2,3,4\nPSHELL,1,1,.1\nMAT1,1,1.+7,,.3\n', 'node': 'CTRIA3,1,1,1,2,9\nPSHELL,1,1,.1\nMAT1,1,1.+7,,.3\n',
                 'include': "INCLUDE 'none.bdf'\n", 'missing': ''}[how]
        with open(path, 'w') as f:
            f.write(text)
        if how == 'missing':
            path += '.none'
        try:
            read_mesh(path)
        finally:
            shutil.rmtree(d)

    def props(self, mesh, i):
        s = dict(self.plan['lams'][0], plyt=self.plan['lams'][0]['plyt']*(1 + 1e-3*i))
        lam = world.make_lam(s)
        for n in mesh.nodes.values():
            n.prop = lam
        for e in mesh.elements.values():
            e.prop = lam

    def one(self, i, sim, t):
        """the operations of round i by thread t"""
        p = self.plan
        rng = random.Random(1000003*t + i)
        mesh = self.kept
        out = {}
        for k, op in enumerate(p['ops']):
            sim.begin(t, k)
            if op.get('fault'):
                sim.arm(t, 'line', (op['fault']['n'] + 13*i) % op['fault']['span'], op['fault']['exc'])
            try:
                mesh = self.step(op, i, t, mesh, out, rng)
            except engine.TaskKilled:
                raise
            except BaseException as e:
                self.raised[type(e).__name__] += 1
                e = None
                if mesh is None:
                    break
            finally:
                sim.disarm(t)

    def step(self, op, i, t, mesh, out, rng):
        from meshless.espim.plate2d_calc_k0 import calc_k0
        from meshless.espim.plate2d_calc_kG import calc_kG
        from meshless.espim.plate2d_add_k0s import add_k0s
        from meshless import interpolate, utils
        o = op['op']
        loud = dict(silent=False) if self.plan['loud'] else {}
        if o == 'read':
            mesh = self.read(i, t)
            self.props(mesh, i)
        elif o == 'props':
            self.props(mesh, i)
        elif o == 'move':
            f = 1. + 1e-3*rng.random()
            for n in mesh.nodes.values():
                if op['mode'] == 'inplace':
                    n.xyz *= f
                else:
                    n.xyz = np.array(n.xyz)*f
            if i % 20 == 19:            # back, lest it drifts
                for n, p in zip(mesh.nodes.values(), world.all_xyz(self.plan['specs'][0])):
                    n.xyz = np.array(p, dtype=float)
        elif o == 'k0':
            out['K'] = calc_k0(mesh, op['pfn'], **loud)
        elif o == 'add':
            k = out.get('K') if op['own'] and 'K' in out else np.zeros((5*len(mesh.nodes),)*2)
            add_k0s(k, mesh, op['pfn'], op['method'], alpha=0.01 + 1e-4*i + 1e-7*t)
        elif o == 'kG':
            d = np.array([rng.random() for _ in range(5*len(mesh.nodes))])
            out['G'] = calc_kG(d, mesh, op['pfn'], **loud)
        elif o == 'refused':
            if op['how'] == 'method':
                add_k0s(np.zeros((5*len(mesh.nodes),)*2), mesh, True, 'no-such-%d' % i)
            elif op['how'] != 'prop':
                self.bad_deck(i, op['how'])
            else:
                n = next(iter(mesh.nodes.values()))
                old, n.prop = n.prop, None
                try:
                    calc_k0(mesh, True)
                finally:
                    n.prop = old
        elif o == 'mid':
            for e in list(mesh.edges.values())[:4]:
                e.getMid()
            for e in list(mesh.elements.values())[:4]:
                utils.getMid(e)
        elif o == 'help':
            x = np.array([0., 1., 2.3]) + 0.01*i + rng.random()*1e-3
            q = np.array([rng.random() for _ in range(3)])
            f = np.array([[rng.random() for _ in range(3)] for _ in range(3)])
            interpolate.interpolate_lagrange_2D(q, q + 1, x, x + 0.5, f)
            interpolate.interpolate_lagrange_3D(q, q + 1, q, x, x + 0.5, x, np.array([f, f + 1, f + 2]))
            utils.area_of_polygon(x, x**2)
            utils.unitvec(x)
        elif o == 'print':
            m, kw = prints.objects(op)
            name = op['name'] + str(i)      # sympy keeps every number it has seen
            try:
                if op.get('blocked'):           # a directory where the file should go
                    os.mkdir(prints.filename(dict(op, name=name)))
                prints.function(op)(m, name, **kw)
            finally:
                for f in os.listdir('.'):
                    os.rmdir(f) if os.path.isdir(f) else os.remove(f)
        return mesh


class Sink(object):
    def write(self, text):
        return len(text)

    def flush(self):
        pass


def quiet():
    """what is left once caches of other packages and unreachable objects are gone"""
    import re
    from sympy.core import cache
    cache.clear_cache()
    re.purge()
    ids._sweep()
    ids._free.clear()
    for _ in range(3):
        gc.collect()
    return sys.getallocatedblocks(), entries(), len(os.listdir('/proc/self/fd'))


def entries():
    """of all containers"""
    seen = set()
    n = 0
    for o in gc.get_objects():
        if type(o) in HOLD:
            if id(o) in seen:
                continue
            seen.add(id(o))
            n += len(o)
            if type(o) is dict:         # what holds nothing but text and numbers is not among the objects
                for v in gc.get_referents(o):
                    if type(v) is dict and not gc.is_tracked(v) and id(v) not in seen:
                        seen.add(id(v))
                        n += len(v)
    return n


def kinds():
    return Counter(type(o).__name__ for o in gc.get_objects())


def child_cycles(plan, where):
    cwd = os.path.join(where, 'cwd')
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    c = Cycle(plan, where)
    rate = 8. if plan['rename'] else RATE
    sys.stdout = Sink()
    if plan['keep']:
        c.kept = c.read(0)
        c.props(c.kept, 0)
    steps = []
    faulty = any(o.get('fault') for o in plan['ops'])
    nt = plan['threads']
    info = dict(steps=0, switches=0, abort=None, fired=0)
    first = {}          # which does not depend on how memory was found to be
    counts = []
    types = []
    i = 0

    def rounds(n):
        nonlocal i
        for _ in range(n):
            pol = engine.Policy(random.Random(plan['sched'] + i), dict(kind='random', p=0.05, pnew=0.2)) if nt > 1 else None
            sim = engine.Sim(policy=pol, switches=None if pol else [])
            sim.run([(lambda s, t: c.one(i, s, t))]*nt)
            if sim.abort:
                if sim.abort.startswith('harness'):
                    raise base.HarnessError(sim.abort + '\n' + getattr(sim, 'tb', ''))
                info['abort'] = sim.abort
                return False
            info['steps'] += sim.step
            info['switches'] += len(sim.switches)
            info['fired'] += len(sim.fired)
            steps.append(sim.step)
            if len(steps) > 40:
                del steps[20:-20]
            i += 1
        return True

    def count():
        counts.append((i,) + quiet())
        types.append(kinds())
        if len(types) > 2:
            del types[0]

    def growing(a, b):
        n = b[0] - a[0]
        return b[1] - a[1] >= rate*n, b[2] - a[2] >= RATE*n, b[3] > a[3]

    viol = None
    if rounds(FIRST):
        count()
        if rounds(STEP):
            count()
            first.update(clone(info), raised=dict(c.raised))
            a = growing(*counts)
            if any(a) and rounds(STEP):
                count()
                b = growing(counts[1], counts[2])
                n = STEP
                # a bounded store stops growing: go on until that is out of the question
                while any(x and y for x, y in zip(a, b)) and i < plan['limit'] and not (
                        i > 400 and counts[-1][1] - counts[0][1] > 100000):
                    n = min(2*n, plan['limit'] - i)
                    if not rounds(n):
                        break
                    count()
                    b = growing(counts[-2], counts[-1])
                else:
                    what = [k for k in range(3) if a[k] and b[k]]
                    if what:
                        k = what[0]
                        d = Counter(types[-1])
                        d.subtract(types[-2])
                        viol = [WHAT[k] + ' grow' + 's'*(k == 0), '%+d in %d rounds, objects: %s' % (
                            counts[-1][1 + k] - counts[-2][1 + k], counts[-1][0] - counts[-2][0],
                            ', '.join('%s %+d' % x for x in d.most_common(5) if x[1] > 5))]
    if info['abort']:
        viol = ['no progress', info['abort']]
    elif viol is None and not faulty and nt == 1 and min(steps[-10:]) > 1.5*max(steps[1:11]) + 50:
        viol = ['work grows', 'a round of %d steps takes %d after %d rounds' % (max(steps[1:11]), min(steps[-10:]), i)]
    info.update(rounds=i, counts=counts, raised=dict(c.raised), first=first)
    return viol, info


class C18(Check):
    id = 'C18'
    rule = ('A run = 80 or more rounds of reading a mesh (or keeping one), assigning properties, moving nodes, assembling, '
            'being refused, interpolating and printing, in one or two simulated threads, some calls interrupted, everything '
            'dropped at the end of a round, with values no other round has. After 40 and 80 rounds the memory blocks and open '
            'files that garbage collection leaves are counted; if they grew, up to 1300 more rounds decide whether they keep '
            'growing. Non-trivial: all rounds ran. Distinct: by operations and sources.')
    assumptions = ['caches of sympy and re are emptied before counting',
                   'growth by less than 0.7 blocks of memory a round is not seen']
    budget = {'quick': dict(runs=72, wall=200), 'thorough': dict(runs=2500, wall=700)}

    def gen(self, rng, idx, ctx):
        src = rng.choice(['deck', 'deck', 'del2', 'del3', 'tri2', 'tri3'])
        spec = world.gen_mesh(rng, src=src, size='tiny')
        while len(spec['tris']) > 8:
            spec = world.gen_mesh(rng, src=src, size='tiny')
        plan = dict(specs=[spec], lams=[world.gen_lam(rng)], setup=[], tasks=[], keep=rng.random() < 0.4,
                    rename=src == 'deck' and rng.random() < 0.3, loud=rng.random() < 0.3, threads=2 if rng.random() < 0.2 else 1, sched=rng.randrange(10**6), limit=1300)
        ops = [] if plan['keep'] else [dict(op='read')]
        for _ in range(rng.choice([1, 2, 3, 5])):
            o = rng.choice(['props', 'move', 'k0', 'k0', 'add', 'kG', 'refused', 'mid', 'help', 'print'])
            if o in ('add', 'kG', 'k0') and not any(x['op'] == 'k0' for x in ops):
                ops.append(dict(op='k0', pfn=rng.random() < 0.5))
            op = dict(op=o)
            if o in ('k0', 'add', 'kG'):
                op['pfn'] = rng.random() < 0.5
            if o == 'add':
                op.update(method=rng.choice(METHODS), own=rng.random() < 0.5)
            if o == 'move':
                op['mode'] = rng.choice(['inplace', 'replace'])
            if o == 'refused':
                op['how'] = rng.choice(['method', 'prop', 'method', 'prop', 'quad', 'node', 'include', 'missing'])
            if o == 'print':
                if any(x['op'] == 'print' for x in ops):
                    continue
                op = self.printing(rng)
            ops.append(op)
        if rng.random() < 0.25:
            plan['keep'] = True
            ops = [self.printing(rng), dict(op='help')][:rng.choice([1, 1, 2])]
        if plan['threads'] > 1:         # threads on one mesh only analyse it
            ops = [x for x in ops if x['op'] not in ('props', 'move', 'refused', 'print')] or [dict(op='help')]
        for op in ops:
            if rng.random() < 0.2 and op['op'] != 'print':
                span = dict(read=150, k0=1500, add=700, kG=900).get(op['op'], 30)
                op['fault'] = dict(n=rng.randrange(span), span=span, exc=rng.choice(EXCS))
        plan['ops'] = ops
        return plan

    def printing(self, rng):
        while True:
            op = prints.gen_print(rng, file=rng.random() < 0.7)
            if len(op['mat'])*len(op['mat'][0]) <= 6:
                op['mat'] = [[x if len(x) < 20 else 'x*y' for x in row] for row in op['mat']]
                op['blocked'] = bool(op['kw'].get('print_file')) and rng.random() < 0.2
                return op

    def run_in(self, plan, ctx, where):
        from .runner import Result
        viol, info = ctx.fork(child_cycles, plan, where)
        stats = dict(operations=dict(Counter()), simulated_steps=info['steps'], context_switches=info['switches'],
                     faults_fired={}, rounds=info['rounds'])
        for op in plan['ops']:
            stats['operations'][op['op']] = stats['operations'].get(op['op'], 0) + info['rounds']
        if info['fired']:
            stats['faults_fired']['line'] = info['fired']
        stats['operations']['raised'] = sum(info['raised'].values())
        return Result(viol=viol, stats=stats, plan=plan, sample=self.sample(plan), nontrivial=info['abort'] is None,
                      sig=base.digest([plan['ops'], plan['keep'], plan['threads'], plan['specs'][0]['src'],
                                       len(plan['specs'][0]['tris'])]),
                      digest=base.digest([info['first'], viol and viol[0]]))

    def sample(self, plan):
        s = plan['specs'][0]
        return dict(mesh='%s %dn/%dt' % (s['src'], len(s['pts']), len(s['tris'])), keep=plan['keep'], threads=plan['threads'],
                    ops=[{k: v for k, v in o.items() if k not in ('mat', 'kw', 'subs')} for o in plan['ops']])

    def shrinks(self, plan):
        if plan['threads'] > 1:
            p = clone(plan)
            p['threads'] = 1
            yield p
        for k, op in enumerate(plan['ops']):
            if op['op'] != 'read':
                p = clone(plan)
                del p['ops'][k]
                yield p
        for k, op in enumerate(plan['ops']):
            if op.get('fault'):
                p = clone(plan)
                del p['ops'][k]['fault']
                yield p


ALL = (C18,)
