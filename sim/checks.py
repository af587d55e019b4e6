"""The property checks: what is generated, what is executed, what is decided."""
import os
import random
import shutil

import numpy as np

from . import base, engine, gen, interp, model, prints, probes, world
from .runner import Result, clone, drop_each

REAL = ['meshless (all modules, unmodified)', 'pyNastran', 'numpy/scipy', 'composites', 'sympy']
BUD = {'quick': dict(runs=600, wall=150), 'thorough': dict(runs=12000, wall=700)}


def write_specs(plan, where):
    for i, s in enumerate(plan['specs']):
        if s['src'] == 'deck':
            world.write_deck(s, os.path.join(where, 'spec%d' % i), s.get('extra') or ())


def site_name(site):
    if isinstance(site, int):
        f, fn, line = probes.SITES[site][:3]
        return (os.path.basename(f), fn, line)
    return (site[0].co_name, site[1])


def pick_points(points, rng, n):
    """n points of an operation: uniform over distinct (weighted) sites, then over occurrences (first, last, any)"""
    occ = {}
    for i, (kind, site) in enumerate(points):
        occ.setdefault((kind, site), []).append(i)
    keys = list(occ)
    if not keys:
        return []
    w = [probes.weight(k, s) for k, s in keys]
    out = []
    for k in rng.choices(range(len(keys)), weights=w, k=n):
        o = occ[keys[k]]
        r = rng.random()
        out.append((keys[k][0], o[0] if r < 0.35 else o[-1] if r < 0.5 else o[rng.randrange(len(o))]))
    return out


class Plain(object):
    pass


def ballast(seed):
    """perturbs the heap so that objects made from now on get other addresses, in another order"""
    rng = random.Random(seed)
    objs = []
    for _ in range(rng.randrange(200, 3000)):
        o = Plain()
        o.a = [1]*rng.randrange(1, 6)
        if rng.random() < 0.3:
            o.b = set()
        objs.append(o)
    keep = [o for o in objs if rng.random() < 0.5]
    rng.shuffle(objs)
    while objs:
        objs.pop()
    return keep


def child_run(plan, where, local, extra=None):
    """executes a plan; in a process of its own"""
    cwd = os.path.join(where, 'cwd')
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    keep = ballast(plan['heap']) if plan.get('heap') else None
    it = interp.Interp(plan, where, local)
    for k, op in enumerate(plan.get('setup', [])):
        it.exec(op, None, 's', k)
    tasks = plan['tasks']
    sched = plan.get('sched')
    info = dict(steps=0, switches=[], fired=[], abort=None, pairs=0)
    faulty = any(op.get('fault') for t in tasks for op in t)
    if sched is None and not faulty:
        for t, ops in enumerate(tasks):
            it.run_ops(ops, None, t)
    else:
        sched = sched or {}
        pol = engine.Policy(random.Random(sched.get('seed', 0)), sched['policy']) if sched.get('policy') else None
        if pol is None and sched.get('switches') is None:
            sched = dict(sched, switches=[])
        sim = engine.Sim(policy=pol, switches=sched.get('switches'),
                         calls=any(op.get('fault', {}).get('kind') == 'call' for t in tasks for op in t),
                         keep_sites=len(tasks) > 1, max_steps=sched.get('max_steps', 3000000))
        sim.run([(lambda s, t, ops=ops: it.run_ops(ops, s, t)) for ops in tasks])
        if sim.abort and sim.abort.startswith('harness'):
            raise base.HarnessError(sim.abort + '\n' + getattr(sim, 'tb', ''))
        info = dict(steps=sim.step, switches=sim.switches, fired=sim.fired, abort=sim.abort, pairs=len(sim.pairs),
                    pairsig=base.digest(sorted(map(str, ((site_name(a), site_name(b)) for a, b in sim.pairs)))))
    info['files'] = {}
    for f in sorted(os.listdir(cwd)):
        if os.path.isfile(f):
            with open(f, 'rb') as fh:
                info['files'][f] = fh.read()
    if it.pool is not None:
        info['pool_changed'] = not it.pool.unchanged()
    del keep
    return it.recs, info


def child_profile(plan, where, want):
    """executes the tasks one after the other, recording the points each operation passes, and returns what
    want(points per operation) chooses: {(t, opid): [(kind, n), ...]}"""
    cwd = os.path.join(where, 'cwd')
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    it = interp.Interp(plan, where, False)
    for k, op in enumerate(plan.get('setup', [])):
        it.exec(op, None, 's', k)
    ops = [(t, k, op) for t, o in enumerate(plan['tasks']) for k, op in enumerate(o)]
    calls = want.get('calls', False)
    sim = engine.Sim(switches=[], record_points=True, calls=calls)
    sim.run([lambda s, t: [it.exec(dict(op, fault=None), s, 0, k) for (tt, k, op) in ops]])
    rng = random.Random(want['seed'])
    out = []
    total = 0
    for (t, k, op), rec in zip(ops, it.recs[len(plan.get('setup', [])):]):
        pts = rec.pop('points', [])
        total += len(pts)
        n = want['n'].get(op['op'], 0) if isinstance(want['n'], dict) else want['n']
        if n and pts:
            for kind, i in pick_points(pts, rng, n):
                # index among the points of that kind
                j = sum(1 for q in pts[:i] if q[0] == kind)
                out.append([t, op.get('id', k), kind, j])
    return out, total


class Check(object):
    preload = False
    hashseeds = False
    level = 'exploration'
    real = REAL
    stub = []
    assumptions = []
    budget = BUD
    local = True

    # ---- execution ---------------------------------------------------------------------------------------
    def run(self, plan, ctx):
        where = ctx.newdir()
        try:
            write_specs(plan, where)
            return self.run_in(plan, ctx, where)
        finally:
            shutil.rmtree(where, ignore_errors=True)

    def run_in(self, plan, ctx, where):
        recs, info = ctx.fork(child_run, plan, where, self.local)
        viol, extra = self.judge(plan, recs, info, ctx, where)
        return self.result(plan, recs, info, viol, extra)

    def result(self, plan, recs, info, viol, extra=None):
        p2 = plan
        if viol and plan.get('sched') and plan['sched'].get('policy'):
            p2 = clone(plan)
            p2['sched'] = dict(switches=info['switches'])
        stats = dict(operations={}, simulated_steps=info['steps'], context_switches=len(info['switches']), faults_fired={})
        for r in recs:
            if not r.get('skip'):
                n = stats['operations']
                n[r['op']] = n.get(r['op'], 0) + 1
                if r['exc']:
                    n['raised'] = n.get('raised', 0) + 1
            if r.get('fired'):
                f = stats['faults_fired']
                o = self.op_of(plan, r)
                key = '%s:%s' % (o['fault']['kind'], o['fault']['exc']) if o and o.get('fault') else 'other'
                f[key] = f.get(key, 0) + 1
        res = Result(viol=viol, stats=stats, plan=p2, sample=self.sample(plan),
                     sig=base.digest([self.signature(plan, recs, info)]),
                     digest=base.digest([[(r['t'], r['k'], r['op'], r['exc'] and r['exc'][0], bool(r.get('skip')),
                                           fingerprint(r['out'])) for r in recs], info['switches'], info['steps'],
                                         info.get('pairsig')]))
        if extra:
            known = extra.pop('known', None)
            if known:
                res['known'] = known
            res.update({k: v for k, v in extra.items() if k != 'stats'})
            from .runner import merge
            merge(stats, extra.get('stats', {}))
        return res

    def op_of(self, plan, rec):
        ops = plan.get('setup', []) if rec['t'] == 's' else plan['tasks'][rec['t']]
        return ops[rec['k']] if rec['k'] < len(ops) else None

    def sample(self, plan):
        return dict(specs=['%s %dn/%dt' % (s['src'], len(s['pts']), len(s['tris'])) for s in plan['specs']],
                    setup=[brief(o) for o in plan.get('setup', [])], tasks=[[brief(o) for o in t] for t in plan['tasks']],
                    sched={k: v for k, v in (plan.get('sched') or {}).items() if k != 'policy'})

    def signature(self, plan, recs, info):
        return [[(r['op'], bool(r['exc']), self.fine(self.op_of(plan, r))) for r in recs], info['switches'],
                [s['src'] for s in plan['specs']], [len(s['pts']) for s in plan['specs']]]

    def fine(self, op):
        if not op:
            return None
        return [op.get(k) for k in ('m', 'pfn', 'method', 'kind', 'mode', 'src', 'fault', 'fn', 'k')]

    # ---- oracles -----------------------------------------------------------------------------------------
    def requests(self, plan, recs):
        """yields (op, rec, request) in execution order, with the state each task sees"""
        by = {}
        for r in recs:
            by.setdefault(r['t'], []).append(r)
        w = interp.Walk(plan)
        for r in by.get('s', []):
            op = self.op_of(plan, r)
            yield op, r, w.step(op, r), w
        single = len(plan['tasks']) == 1
        for t in sorted(k for k in by if k != 's'):
            wt = w if single else w.clone()
            for r in by[t]:
                op = self.op_of(plan, r)
                yield op, r, wt.step(op, r), wt

    def solo(self, plan, req, ctx, where):
        return ctx.cached(['solo', plan['specs'][req['spec']], req], lambda: ctx.fork(interp.solo, plan, req, where))

    def against_solo(self, plan, op, rec, req, ctx, where):
        """None, or why the recorded outcome differs from the same call made alone on a fresh mesh"""
        exc, out, index = self.solo(plan, req, ctx, where)
        if exc is not None:
            if rec['exc'] is None:
                return 'returned although the call alone raises %s' % exc[0]
            return None if rec['exc'][0] == exc[0] else 'raised %s, alone %s' % (rec['exc'], exc)
        if rec['exc'] is not None:
            return 'raised %s: %s' % tuple(rec['exc'])
        if op['op'] == 'add':
            return self.increment(rec, out)
        d = interp.differ(rec['out'], out)
        if d is None and op['op'] == 'k0' and rec.get('index') != index:
            d = 'node numbering %s instead of %s' % (rec.get('index'), index)
        return d

    def increment(self, rec, inc):
        before = rec.get('before')
        out = rec['out']
        if out is None:
            return 'no matrix'
        if before is None:
            before = np.zeros_like(out)
        if out.shape != inc.shape:
            return 'shape %s instead of %s' % (out.shape, inc.shape)
        mask = np.isfinite(before)
        with np.errstate(all='ignore'):
            got = np.where(mask, out - before, 0.)
        want = np.where(mask, inc, 0.)
        if not np.isfinite(got).all():
            return 'not finite'
        n = inc.shape[0]
        s = np.array([np.abs(inc[c::5, c::5]).max() for c in range(5)])
        s = np.maximum(s, 1e-7*s.max())
        tol = 1e-9*np.tile(np.sqrt(np.outer(s, s)), (n//5, n//5)) + 4e-15*np.where(mask, np.abs(before), 0.)*4
        e = np.abs(got - want)
        if (e > tol).any():
            i, j = np.unravel_index(np.argmax(e - tol), e.shape)
            return 'entry (%d,%d) grew by %.10g instead of %.10g' % (i, j, got[i, j], want[i, j])
        return None

    # ---- shrinking ----------------------------------------------------------------------------------------
    def shrinks(self, plan):
        if len(plan['tasks']) > 1:
            for t in range(len(plan['tasks'])):
                p = clone(plan)
                p['tasks'][t] = []
                if plan['tasks'][t]:
                    yield p
        sw = (plan.get('sched') or {}).get('switches')
        if sw:
            for l in drop_each(sw):
                p = clone(plan)
                p['sched']['switches'] = l
                yield p
        for t in range(len(plan['tasks'])):
            for l in drop_each(plan['tasks'][t]):
                p = clone(plan)
                p['tasks'][t] = clone(l)
                yield p
        for l in drop_each(plan.get('setup', [])):
            p = clone(plan)
            p['setup'] = clone(l)
            yield p
        for t, ops in enumerate(plan['tasks']):
            for k, op in enumerate(ops):
                if op.get('fault'):
                    p = clone(plan)
                    del p['tasks'][t][k]['fault']
                    yield p


def fingerprint(out):
    """coarse, insensitive to rounding"""
    if out is None or isinstance(out, (str, list, dict, tuple)):
        return out if out is None or isinstance(out, str) else repr(out)
    a = np.asarray(out, dtype=float)
    f = a[np.isfinite(a)]
    return [list(a.shape), '%.5g' % float(np.abs(f).sum())]


def brief(op):
    keep = {k: v for k, v in op.items() if k not in ('id', 'pn', 'pe', 'to', 'd', 'mat', 'seed')}
    if 'pn' in op:
        keep['pn'] = str(op['pn'])
    if 'pe' in op:
        keep['pe'] = str(op['pe'])
    if 'to' in op:
        keep['nodes'] = int(np.size(op['to']) if not isinstance(op['to'], dict) else len(op['to']))
    return keep


# =====================================================================================================================
class C01(Check):
    id = 'C01'
    local = False
    rule = ('A run = 2-4 simulated caller threads with 1-4 calls each (stiffness, shear with three methods, geometric '
            'stiffness, reading another mesh, printing) on shared and private meshes under one seeded schedule (random, '
            'priority-change or targeted preemption). Non-trivial: at least one context '
            'switch inside a call. Distinct: by operations and the full switch list.')
    assumptions = ['preemption points are the statements of meshless code and, inside assignments to shared state, the point between '
                   'evaluating and storing; calls into numpy, pyNastran, sympy are atomic',
                   'oracle: the same call on a freshly read mesh alone in a process forked before any meshless call']
    budget = {'quick': dict(runs=800, wall=150), 'thorough': dict(runs=14000, wall=720)}

    def gen(self, rng, idx, ctx):
        plan = dict(specs=[], lams=gen.lams(rng, rng.choice([1, 2, 3])), setup=[], tasks=[])
        nm = rng.choice([1, 1, 2])
        focus = rng.choice([None, None, None, 'k0', 'k0', 'kG', 'kG', 'add', 'add', 'add', 'print', 'io', 'io'])
        for _ in range(nm + 1):
            plan['specs'].append(world.gen_mesh(rng, size='tiny' if rng.random() < 0.6 or focus == 'io' else None, plain=True,
                                                src='deck' if focus == 'io' else None))
        h = gen.Hist(rng, plan)
        shared = []
        for i in range(nm):
            name = 'M%d' % i
            h.read(name, i)
            h.props(name, 'both')
            if rng.random() < 0.5:
                h.k0(name)
                if rng.random() < 0.4:
                    h.kG(name)
                if rng.random() < 0.3:
                    h.add(name)
            shared.append((name, h.m[name]['fresh']))
        plan['setup'] = h.ops
        nt = rng.choice([2, 2, 2, 3, 3, 4])
        for t in range(nt):
            plan['tasks'].append(self.task(rng, plan, h, shared, t, focus))
        if rng.random() < 0.5:              # the same kind of call in every thread
            method, pfn = rng.choice(world.METHODS), rng.random() < 0.5
            for op in [o for ops in plan['tasks'] for o in ops]:
                if op['op'] == 'add':
                    op['method'] = method
                if op['op'] in ('k0', 'add', 'kG'):
                    op['pfn'] = pfn
        plan['sched'] = dict(seed=rng.randrange(2**31), max_steps=4000000)
        plan['sched']['policy'] = self.policy(rng, plan, ctx, nt)
        return plan

    def task(self, rng, plan, h0, shared, t, focus):
        h = gen.Hist(rng, plan)
        h.m = clone(h0.m)
        h.nk = 100*(t + 1)
        n = rng.choice([1, 2, 2, 3])
        for _ in range(n):
            r = rng.random()
            name = rng.choice(shared)[0]
            done = dict(shared)[name] or any(o['op'] == 'k0' and o['m'] == name for o in h.ops)
            if focus == 'io':
                want = rng.choice(['read', 'read', 'print', 'k0'])
            else:
                want = focus if focus and rng.random() < 0.7 else rng.choice(['k0', 'k0', 'add', 'add', 'kG', 'kG', 'read',
                                                                             'print', 'mid'])
            if want in ('add', 'kG') and not done:
                h.k0(name)
            if want == 'k0':
                k = h.k0(name)
                if r < 0.3:
                    h.add(name, k)
            elif want == 'add':
                h.add(name, h.mat(name, ['zeros', 'rand', 'view', 'F']))
            elif want == 'kG':
                h.kG(name)
                h.ops[-1].pop('dreg', None)
            elif want == 'read':
                p = 'P%d' % t
                si = len(plan['specs']) - 1 if rng.random() < 0.6 else rng.randrange(len(plan['specs']))
                if focus == 'io':
                    si = rng.choice([i for i, s in enumerate(plan['specs']) if s['src'] == 'deck'] or [si])
                h.read(p, si)
                if rng.random() < 0.5:
                    h.ops[-1]['rel'] = True
                if rng.random() < (0.2 if focus == 'io' else 0.6):
                    h.props(p, 'both')
                    h.k0(p)
                    if rng.random() < 0.5:
                        h.add(p, h.mat(p, ['zeros']))
                    else:
                        h.kG(p)
                        h.ops[-1].pop('dreg', None)
            elif want == 'print':
                file = rng.random() < (0.9 if focus == 'io' else 0.6)
                op = prints.gen_print(rng, name='t%d' % t, file=file)
                h.emit(op)
            elif want == 'mid':
                h.emit(dict(op='mid', m=name, e=rng.randrange(30)))
        return h.ops

    def policy(self, rng, plan, ctx, nt):
        kind = rng.choice(['random', 'random', 'pct', 'target', 'target', 'target'])
        if kind == 'random':
            return dict(kind='random', p=rng.choice([0.0005, 0.003, 0.02, 0.2]), pnew=rng.choice([0.02, 0.1, 0.3]))
        where = ctx.newdir()
        try:
            write_specs(plan, where)
            want = dict(seed=rng.randrange(2**31), n=rng.choice([1, 1, 2, 3]))
            pts, total = ctx.fork(child_profile, plan, where, want)
        finally:
            shutil.rmtree(where, ignore_errors=True)
        if kind == 'pct':
            prio = list(range(1, nt + 1))
            rng.shuffle(prio)
            return dict(kind='pct', prio=prio, change=sorted(rng.randrange(1, max(2, total)) for _ in range(rng.choice([1, 2, 3, 5]))))
        tg = []
        for t, oid, _, n in pts:
            hold = rng.choice([1, 3, 10, 60, 400, 10**6, 10**6])
            tg.append([t, oid, n + 1, rng.randrange(8), hold])
        return dict(kind='target', targets=tg)

    def judge(self, plan, recs, info, ctx, where):
        extra = dict(stats=dict(schedule_policy={(plan['sched'].get('policy') or {}).get('kind', 'replay'): 1},
                                concurrent_site_pairs=info['pairs']),
                     nontrivial=len(info['switches']) > 0)
        if info['abort'] == 'deadlock':
            return ['no progress', 'all threads wait for one another'], extra
        if info['abort'] == 'steps':
            return ['no progress', 'step limit reached'], extra
        expect = {}
        for op, rec, req, w in self.requests(plan, recs):
            if rec['t'] == 's' or rec.get('skip'):
                continue
            what = '%s of thread %s' % (op['op'], rec['t'])
            if op['op'] == 'read':
                v = self.read_ok(plan, op, rec)
                if v:
                    return ['concurrent read', '%s: %s' % (what, v)], extra
            elif op['op'] == 'print':
                exc, text = ctx.cached(['print', op], lambda: ctx.fork(prints.solo, op))
                if exc is None and rec['exc'] is not None:
                    return ['concurrent print', '%s raised %s' % (what, rec['exc'])], extra
                if exc is None and rec['out'] != text:
                    return ['concurrent print', '%s returned another text' % what], extra
                if exc is None and op['kw'].get('print_file'):
                    f = 'print_%s.txt' % '_'.join([op['name']] + [op['kw'][x] for x in ['sufix'] if x in op['kw']])
                    expect[f] = text
            elif op['op'] == 'mid':
                if rec['exc'] is not None:
                    return ['concurrent mid', '%s raised %s' % (what, rec['exc'])], extra
            elif req is not None:
                if op['op'] == 'add':
                    mat = next((o for o in plan['tasks'][rec['t']] if o['op'] in ('mat', 'k0') and o['out'] == op['k']), None)
                    rec['before'] = self.content(plan, recs, rec, op)
                    if rec['before'] is None and mat is not None:
                        continue
                v = self.against_solo(plan, op, rec, req, ctx, where)
                if v:
                    return ['concurrent ' + op['op'], '%s: %s' % (what, v)], extra
        for f, text in sorted(expect.items()):
            if info['files'].get(f) != text.encode('utf-8'):
                return ['concurrent print', '%s does not hold the printed text' % f], extra
        return None, extra

    def content(self, plan, recs, rec, op):
        """what the task's own matrix held before: its last recorded state"""
        prev = None
        for r in recs:
            if r is rec:
                break
            o = self.op_of(plan, r)
            if r['t'] == rec['t']:
                if o['op'] in ('k0', 'kG') and o.get('out') == op['k']:
                    prev = r['out']
                elif o['op'] == 'add' and o['k'] == op['k']:
                    prev = r['out']
                elif o['op'] == 'mat' and o['out'] == op['k']:
                    n = r.get('n')
                    if n:
                        prev = interp.matrix(o['kind'], n, o['seed'])[0].copy()
        return prev

    def read_ok(self, plan, op, rec):
        if rec['exc'] is not None:
            return 'raised %s: %s' % tuple(rec['exc'])
        spec = plan['specs'][op['spec']]
        if sorted(rec['nids']) != sorted(world.all_nids(spec)) or sorted(rec['eids']) != sorted(world.eids_of(spec)):
            return 'wrong nodes or elements'
        if rec.get('conn_bad'):
            return rec['conn_bad']
        return None


# =====================================================================================================================
class C02(Check):
    id = 'C02'
    level = 'fault_enumeration'
    rule = ('A run = a history on 1-2 meshes in which one call (reading points, stiffness, shear, geometric stiffness, edge '
            'midpoint) is hit by a fault at a sampled line or call (drawn uniformly over distinct lines/call sites of that '
            'operation, then over occurrences), up to six times, each followed by a retry from the stiffness assembly on. Non-trivial: the fault '
            'fired. Distinct: by operations, fault point and kind.')
    assumptions = ['faults are exceptions of kinds the code cannot legitimately expect (KeyboardInterrupt, MemoryError, unknown '
                   'Exception / BaseException subclasses) delivered between lines of, or at calls made by, meshless code',
                   'reading a deck is covered by C07']
    budget = {'quick': dict(runs=1100, wall=150), 'thorough': dict(runs=20000, wall=720)}

    def gen(self, rng, idx, ctx):
        plan = dict(specs=[], lams=gen.lams(rng), setup=[], tasks=[])
        src = ['deck', 'del2', 'del3', 'tri2', 'tri3']
        for _ in range(rng.choice([1, 1, 2])):
            plan['specs'].append(world.gen_mesh(rng, src=rng.choice(src), size='tiny' if rng.random() < 0.75 else None))
        h = gen.Hist(rng, plan)
        for i in range(len(plan['specs'])):
            h.read('M%d' % i, i)
            h.props('M%d' % i, 'both')
        name = 'M0'
        if rng.random() < 0.5:
            h.k0(name)
            if rng.random() < 0.4:
                h.add(name)
            if rng.random() < 0.4:
                h.kG(name)
            if rng.random() < 0.6:
                h.move(name)
            if rng.random() < 0.2:
                h.props(name, 'both')
        start = len(h.ops)
        victim = rng.choice(['k0', 'k0', 'k0', 'add', 'add', 'kG', 'kG', 'mid', 'read'])
        if victim == 'read' and plan['specs'][0]['src'] == 'deck':
            victim = 'k0'
        if victim in ('add', 'kG') and not h.m[name]['fresh']:
            h.k0(name)
        vids = []

        def attempt():
            if victim == 'k0':
                h.k0(name)
            elif victim == 'add':
                h.add(name, h.mat(name, ['zeros', 'rand']))
            elif victim == 'kG':
                h.kG(name)
            elif victim == 'mid':
                h.emit(dict(op='mid', m=name, e=rng.randrange(40)))
            else:
                h.emit(dict(op='read', m='MX', spec=0, share=rng.random() < 0.5))
            vids.append(h.ops[-1]['id'])

        attempt()
        # further faulted attempts on the same objects, each retried from the stiffness assembly on
        for _ in range(rng.choice([0, 1, 2, 3, 4, 5])):
            if victim == 'read':
                h.read('MX', 0)
                h.props('MX', 'both')
                if rng.random() < 0.5:
                    h.k0('MX')
            elif rng.random() < 0.8:
                h.m[name]['fresh'] = False
                h.k0(name)
                if rng.random() < 0.5:
                    h.add(name, h.mat(name, ['zeros']))
                if rng.random() < 0.5:
                    h.kG(name)
                if rng.random() < 0.15:
                    h.move(name)
                    if victim in ('add', 'kG'):
                        h.k0(name)
            attempt()
        # afterwards: maybe another edit, then the whole analysis again
        if rng.random() < 0.25:
            h.move(name)
        if rng.random() < 0.2:
            h.props(name, 'both')
        if rng.random() < 0.3 and len(plan['specs']) > 1:
            h.k0('M1')
            h.kG('M1')
        for _ in range(rng.choice([1, 1, 2])):
            h.m[name]['fresh'] = False
            h.k0(name)
            what = rng.choice(['add', 'kG', 'both', 'both'])
            if what in ('add', 'both'):
                h.add(name, h.mat(name, ['zeros', 'rand']))
            if what in ('kG', 'both'):
                h.kG(name)
        if victim == 'read':
            h.read('MX', 0)
            h.props('MX', 'both')
            h.k0('MX')
        plan['tasks'] = [h.ops]
        del start
        return self.aim(rng, plan, ctx, vids)

    def aim(self, rng, plan, ctx, vids):
        """choose where the faults strike from a profile of the undisturbed history up to the first victim"""
        calls = rng.random() < 0.4
        p = clone(plan)
        k = next(i for i, o in enumerate(p['tasks'][0]) if o['id'] == vids[0])
        p['setup'] = p['tasks'][0][:k]
        p['tasks'] = [[p['tasks'][0][k]]]
        where = ctx.newdir()
        try:
            write_specs(p, where)
            pts, _ = ctx.fork(child_profile, p, where, dict(seed=rng.randrange(2**31), n=12, calls=calls))
        finally:
            shutil.rmtree(where, ignore_errors=True)
        pts = [x for x in pts if x[2] == ('call' if calls else 'line')] or pts
        for op in plan['tasks'][0]:
            if op['id'] in vids:
                kind, n = ('line', 0) if not pts else pts.pop(rng.randrange(len(pts)))[2:]
                exc = rng.choice(['KeyboardInterrupt', 'KeyboardInterrupt', 'MemoryError', 'MemoryError', 'InjectedError', 'InjectedError',
                                  'InjectedBase'])
                op['fault'] = dict(kind=kind, n=n, exc=exc)
        return plan

    def judge(self, plan, recs, info, ctx, where):
        fired = any(r.get('fired') for r in recs)
        extra = dict(nontrivial=fired, stats=dict(victims={}))
        if info['abort'] == 'deadlock':
            return ['no progress', 'the retry waits for something the interrupted call left locked'], extra
        if info['abort'] == 'steps':
            return ['no progress', 'step limit reached'], extra
        seen = False
        for op, rec, req, w in self.requests(plan, recs):
            what = '%s (operation %s)' % (op['op'], rec['k'])
            if rec.get('fired'):
                seen = True
                v = extra['stats']['victims']
                v[op['op']] = v.get(op['op'], 0) + 1
                if 'swallowed' in rec['bad']:
                    return ['reported success', '%s was cut short by %s but returned' % (what, op['fault']['exc'])], extra
                bad = [b for b in rec['bad'] if b in ('input:xyz', 'input:conn', 'input:prop', 'input:lam')]
                if bad:
                    return ['interrupted call left ' + bad[0], what], extra
                continue
            if rec.get('skip') or not seen:
                continue
            if op['op'] == 'read' and rec['exc']:
                return ['retry', '%s raised %s' % (what, rec['exc'])], extra
            if req is not None:
                v = self.against_solo(plan, op, rec, req, ctx, where)
                if v:
                    return ['retry ' + op['op'], '%s: %s' % (what, v)], extra
        return None, extra


# =====================================================================================================================
class C03(Check):
    id = 'C03'
    rule = ('A run = a history of 8-22 operations on 1-3 meshes: assemblies with changing methods, property sources and '
            'displacement vectors, between edits (nodes moved in place/by replacement, rigidly, by one node, by 1e-4, sum- and '
            'set-preserving, back; properties reassigned or changed in place; matrices overwritten; objects dropped). Non-'
            'trivial: at least one assembly after an edit or repeated. Distinct: by operations with their arguments.')
    assumptions = ['oracle: the same call on a freshly read mesh with the same coordinates and properties, alone in a process '
                   'forked before any meshless call; equality to 1e-9 of the largest entry of the class of degrees of freedom']
    budget = {'quick': dict(runs=420, wall=150), 'thorough': dict(runs=9000, wall=720)}

    def history(self, rng, nmax=3, size=None):
        plan = dict(specs=[], lams=gen.lams(rng), setup=[], tasks=[])
        ns = rng.choice([1, 1, 2])
        for _ in range(ns):
            plan['specs'].append(world.gen_mesh(rng, size=size or ('tiny' if rng.random() < 0.5 else None)))
        h = gen.Hist(rng, plan)
        nm = rng.choice([1, 1, 2, nmax])
        if size is None and rng.random() < 0.03:         # many meshes at once
            nm = rng.choice([6, 10])
            plan['specs'] = [world.gen_mesh(rng, size='tiny') for _ in range(ns)]
        for i in range(nm):
            h.read('M%d' % i, i % ns)
            h.props('M%d' % i, rng.choice(['both', 'both', 'node', 'elem']))
        return plan, h

    def gen(self, rng, idx, ctx):
        plan, h = self.history(rng)
        names = sorted(h.m)
        weights = dict(move=rng.choice([1, 3, 5]), props=rng.choice([0, 1, 3]), mutlam=rng.choice([0, 0, 1, 2]),
                       k0=rng.choice([1, 3]), add=rng.choice([1, 3]), kG=rng.choice([1, 3]), scribble=rng.choice([0, 1]),
                       scribd=rng.choice([0, 1, 2]), drop=rng.choice([0, 1]), reread=rng.choice([0, 0, 1]))
        kinds = list(weights)
        n = rng.choice([8, 12, 18]) if rng.random() < 0.97 else 70
        while len(h.ops) < n + 2*len(names):
            name = rng.choice(names)
            k = rng.choices(kinds, weights=[weights[x] for x in kinds])[0]
            if k == 'move':
                for _ in range(rng.choice([1, 1, 2])):
                    h.move(name)
            elif k == 'props':
                h.props(name)
            elif k == 'mutlam':
                h.mutlam()
            elif k == 'k0':
                h.k0(name)
            elif k == 'add':
                h.analyse(name)
                h.add(name, h.mat(name, ['zeros', 'rand']) if rng.random() < 0.7 else None)
                if rng.random() < 0.2:
                    h.ops.append(dict(clone(h.ops[-1]), id=len(h.ops)))
            elif k == 'kG':
                h.analyse(name)
                h.kG(name)
                if rng.random() < 0.3:
                    h.scribd()
                    h.kG(name)
            elif k == 'scribble':
                h.scribble()
            elif k == 'scribd':
                h.scribd()
            elif k == 'drop':
                h.drop()
            elif k == 'reread':
                h.emit(dict(op='drop', k=name, mesh=True, gc=rng.random() < 0.5))
                h.read(name, rng.randrange(len(plan['specs'])))
                h.props(name, 'both')
        for name in names:
            if not h.m[name]['fresh']:
                h.k0(name)
                h.kG(name) if rng.random() < 0.5 else h.add(name, h.mat(name, ['zeros']))
        plan['tasks'] = [h.ops]
        return plan

    def judge(self, plan, recs, info, ctx, where):
        edits = 0
        checked = 0
        extra = dict(stats=dict(assemblies_compared=0))
        for op, rec, req, w in self.requests(plan, recs):
            if op['op'] in ('move', 'props', 'mutlam', 'scribd', 'k0'):
                edits += 1
            if req is None or rec.get('skip'):
                continue
            checked += 1
            v = self.against_solo(plan, op, rec, req, ctx, where)
            if v:
                return ['history ' + op['op'], '%s (operation %s): %s' % (op['op'], rec['k'], v)], extra
        extra['stats']['assemblies_compared'] = checked
        extra['nontrivial'] = checked > 1 and edits > 1
        return None, extra


# =====================================================================================================================
class C04(Check):
    id = 'C04'
    rule = ('A run = a history on 1-2 meshes in which the caller overwrites every kind of array it owns (returned matrices, '
            'displacement vectors) between calls; after every operation all matrices, vectors, coordinates, connectivity and '
            'property arrays are compared bit for bit with shadow copies, memory overlap between matrices is excluded, and '
            'assemblies are compared with the same call on a fresh mesh. Non-trivial: a caller write precedes a later '
            'assembly. Distinct: by operations with their arguments.')
    assumptions = C03.assumptions
    budget = {'quick': dict(runs=480, wall=150), 'thorough': dict(runs=10000, wall=720)}

    def gen(self, rng, idx, ctx):
        plan, h = C03().history(rng, nmax=2)
        for lam in plan['lams']:
            if rng.random() < 0.3:
                lam['asym'] = 1
        names = sorted(h.m)
        for n in names:
            h.k0(n)
        n = rng.choice([8, 12, 16])
        while len(h.ops) < n + 3*len(names):
            name = rng.choice(names)
            k = rng.choice(['k0', 'add', 'kG', 'kG', 'scribble', 'scribble', 'scribd', 'move', 'props', 'addown', 'mat', 'reuse'])
            if k == 'k0':
                h.k0(name)
            elif k == 'add':
                h.analyse(name)
                h.add(name)
            elif k == 'addown':
                out = h.k0(name)
                h.add(name, out)
                if rng.random() < 0.6:
                    h.scribble(out)
            elif k == 'kG':
                h.analyse(name)
                h.kG(name)
                if rng.random() < 0.5:
                    h.scribble('K%d' % (h.nk - 1))
                if rng.random() < 0.5:
                    h.scribd()
                if rng.random() < 0.4:
                    h.ops.append(dict(clone([o for o in h.ops if o['op'] == 'kG'][-1]), id=len(h.ops), out='K%d' % h.nk))
                    h.mats['K%d' % h.nk] = name
                    h.nk += 1
            elif k == 'scribble':
                h.scribble()
            elif k == 'scribd':
                h.scribd()
            elif k == 'move' and rng.random() < 0.4:
                h.move(name)
            elif k == 'props' and rng.random() < 0.4:
                h.props(name)
            elif k == 'mat':
                h.mat(name)
            elif k == 'reuse':                                   # what the caller wrote and let go of comes back
                for _ in range(rng.choice([1, 2])):
                    (h.k0 if rng.random() < 0.4 else h.kG)(name)
                    last = 'K%d' % (h.nk - 1)
                    h.scribble(last)
                    if rng.random() < 0.8:
                        h.drop(last)
                (h.k0 if rng.random() < 0.4 else h.kG)(name)
        for name in names:
            h.k0(name)
            h.kG(name)
        for o in h.ops:
            if o['op'] == 'kG' and rng.random() < 0.07:
                o['d'] = dict(o['d'], kind='odd')
        plan['tasks'] = [h.ops]
        return plan

    CAT = ('input:d', 'input:xyz', 'input:conn', 'input:prop', 'input:lam', 'reg', 'shared')

    def judge(self, plan, recs, info, ctx, where):
        extra = dict(stats=dict(assemblies_compared=0, shadow_comparisons=len(recs)))
        wrote = False
        for op, rec, req, w in self.requests(plan, recs):
            bad = [b for b in rec['bad'] if b in self.CAT]
            if bad and op['op'] in ('read', 'k0', 'add', 'kG', 'scribble', 'scribd', 'mat', 'move', 'props', 'mutlam'):
                return [bad[0], 'after %s (operation %s)' % (op['op'], rec['k'])], extra
            if op['op'] in ('scribble', 'scribd'):
                wrote = True
            if req is None or rec.get('skip'):
                continue
            if wrote:
                extra['nontrivial'] = True
            extra['stats']['assemblies_compared'] += 1
            v = self.against_solo(plan, op, rec, req, ctx, where)
            if v:
                # only if the caller's writes matter: the same history without them must be right
                p = clone(plan)
                for t in p['tasks']:
                    for o in t:
                        if o['op'] in ('scribble', 'scribd'):
                            o['op'] = 'drop'
                            o['k'] = '-'
                recs2, _ = ctx.fork(child_run, p, where, True)
                for op2, rec2, req2, w2 in self.requests(p, recs2):
                    if rec2['k'] == rec['k'] and rec2['t'] == rec['t']:
                        v2 = None if req2 is None else self.against_solo(p, op2, rec2, req2, ctx, where)
                        if v2 is None:
                            return ['writes matter to ' + op['op'], '%s (operation %s) depends on what the caller wrote into '
                                    'its own arrays: %s' % (op['op'], rec['k'], v)], extra
                return None, extra
        extra.setdefault('nontrivial', False)
        return None, extra


# =====================================================================================================================
class C05(Check):
    id = 'C05'
    rule = ('A run = a history of shear additions (three methods, parameters, property sources) into zero, random, '
            'non-symmetric, Fortran-ordered, reversed, strided and transposed-view matrices and stiffness matrices, with other '
            'assemblies in between; each increment is compared with the increment the same call gives alone, uncoupled '
            'entries (also NaN, infinite, huge, tiny) by value and memory outside views bit for bit. Non-trivial: at least two additions. '
            'Distinct: by operations with their arguments.')
    assumptions = C03.assumptions
    budget = {'quick': dict(runs=480, wall=150), 'thorough': dict(runs=10000, wall=720)}

    def gen(self, rng, idx, ctx):
        plan, h = C03().history(rng, nmax=2)
        names = sorted(h.m)
        n = rng.choice([8, 12, 16])
        while len(h.ops) < n + 2*len(names):
            name = rng.choice(names)
            h.analyse(name)
            k = rng.choice(['add', 'add', 'add', 'again', 'k0', 'kG', 'move', 'mat', 'props', 'scribble'])
            if k == 'add':
                h.add(name, h.mat(name, ['nonfin']) if rng.random() < 0.15 else None)
            elif k == 'again':
                adds = [o for o in h.ops if o['op'] == 'add' and o['m'] == name]
                if adds:
                    h.ops.append(dict(clone(rng.choice(adds)), id=len(h.ops)))
                else:
                    h.add(name)
                if rng.random() < 0.5:
                    h.ops[-1]['k'] = h.mat(name)
                    h.ops[-2], h.ops[-1] = h.ops[-1], h.ops[-2]
            elif k == 'k0':
                h.k0(name)
            elif k == 'kG':
                h.kG(name)
            elif k == 'mat':
                h.mat(name)
            elif k == 'move' and rng.random() < 0.5:
                h.move(name)
            elif k == 'props' and rng.random() < 0.5:
                h.props(name)
            elif k == 'scribble' and rng.random() < 0.4:
                h.scribble()
        # drop references to matrices of other sizes
        plan['tasks'] = [h.ops]
        return plan

    def judge(self, plan, recs, info, ctx, where):
        extra = dict(stats=dict(additions=0, matrix_kinds={}))
        kinds = {}
        n = 0
        for op, rec, req, w in self.requests(plan, recs):
            if rec.get('skip'):
                continue
            if op['op'] == 'mat':
                kinds[op['out']] = op['kind']
            if op['op'] != 'add':
                continue
            n += 1
            k = kinds.get(op['k'], 'returned')
            extra['stats']['matrix_kinds'][k] = extra['stats']['matrix_kinds'].get(k, 0) + 1
            bad = [b for b in rec['bad'] if b in ('identity', 'uncoupled', 'outside')]
            what = 'add %s (operation %s, %s matrix)' % (op['method'], rec['k'], k)
            if bad:
                return [bad[0], what], extra
            if req is not None:
                exc, _, _ = self.solo(plan, req, ctx, where)
                if exc is not None and rec['exc'] is not None:
                    continue
                v = self.against_solo(plan, op, rec, req, ctx, where)
                if v:
                    return ['increment', '%s: %s' % (what, v)], extra
        extra['stats']['additions'] = n
        extra['nontrivial'] = n > 1
        return None, extra


# =====================================================================================================================
class C06(Check):
    id = 'C06'
    rule = ('A run = a history of 6-16 edits, interrupted calls and re-analyses of 1-2 plane meshes (up to 25 nodes); every '
            'assembly is compared with a reference model (area-averaged constant gradients, DSG operators) for the current '
            'coordinates and properties, and checked for symmetry and in-plane rigid motions. Non-trivial: at least two '
            'assemblies compared. Distinct: by operations with their arguments.')
    assumptions = ['reference model sim/model.py, written from the formulation; averaging weights and shear parameters are '
                   'taken from the code']
    budget = {'quick': dict(runs=700, wall=150), 'thorough': dict(runs=16000, wall=720)}

    def gen(self, rng, idx, ctx):
        plan, h = C03().history(rng, nmax=2, size=rng.choice([None, None, 'tiny', 'big', 'big' if rng.random() < 0.3 else None]))
        names = sorted(h.m)
        n = rng.choice([5, 8, 12])
        fault = rng.random() < 0.4
        while len(h.ops) < n + 2*len(names):
            name = rng.choice(names)
            k = rng.choice(['move', 'move', 'props', 'k0', 'add', 'add', 'kG', 'kG', 'mutlam', 'fault'])
            if k == 'move':
                h.move(name)
            elif k == 'props':
                h.props(name)
            elif k == 'mutlam' and rng.random() < 0.4:
                h.mutlam()
            elif k == 'k0':
                h.k0(name)
            elif k == 'add':
                h.analyse(name)
                h.add(name, h.mat(name, ['zeros']))
            elif k == 'kG':
                h.analyse(name)
                h.kG(name)
            elif k == 'fault' and fault:
                h.k0(name)
                h.ops[-1]['fault'] = dict(kind='line', n=int(10**rng.uniform(0, 3.5)),
                                          exc=rng.choice(['KeyboardInterrupt', 'MemoryError']))
                h.m[name]['fresh'] = False
        for name in names:
            h.k0(name)
            h.kG(name)
        plan['tasks'] = [h.ops]
        return plan

    def state(self, plan, req, order):
        """model state in the order of the mesh"""
        spec = plan['specs'][req['spec']]
        nids, eids = order
        pos = {n: k for k, n in enumerate(world.all_nids(spec))}
        epos = {e: k for k, e in enumerate(world.eids_of(spec))}
        rank = {pos[n]: i for i, n in enumerate(nids)}
        ld = [None if s is None else world.lam_dict(s) for s in req['pn']]
        le = [None if s is None else world.lam_dict(s) for s in req['pe']]
        return dict(xyz=[req['xyz'][pos[n]] for n in nids], tris=[[rank[k] for k in spec['tris'][epos[e]]] for e in eids],
                    pn=[ld[pos[n]] for n in nids], pe=[le[epos[e]] for e in eids])

    def judge(self, plan, recs, info, ctx, where):
        extra = dict(stats=dict(assemblies_compared=0), known=[])
        order = {}
        n = 0
        for op, rec, req, w in self.requests(plan, recs):
            if op['op'] == 'read' and not rec['exc']:
                order[op['m']] = (rec['nids'], rec['eids'])
            if req is None or rec.get('skip') or rec.get('fired'):
                continue
            n += 1
            what = '%s (operation %s)' % (op['op'] if op['op'] != 'add' else 'add ' + op['method'], rec['k'])
            if rec['exc'] is not None:
                return ['raised in ' + op['op'], '%s raised %s: %s' % (what, rec['exc'][0], rec['exc'][1])], extra
            if rec['out'] is None:
                return ['no matrix from ' + op['op'], what], extra
            st = self.state(plan, req, order[op['m']])
            c = req['chain'][-1]
            out = rec['out']
            cls = 'model ' + (op['op'] if op['op'] != 'add' else 'add ' + op['method'])
            if c[0] == 'k0':
                v = interp.differ(out, model.k0(st, c[1]))
                if v is None and rec.get('index') != list(range(len(st['xyz']))):
                    v = 'node numbering %s' % rec.get('index')
                if v is None:
                    v = self.rigid(out, st)
            elif c[0] == 'kG':
                v = interp.differ(out, model.kG(st, c[1], interp.dvec(c[2])))
            else:
                alpha = 0.08 if c[3] is None else c[3]
                v = self.increment(rec, model.k0s(st, c[1], c[2], alpha, c[4]))
                if v is not None and c[2] == 'edge-based':
                    if self.increment(rec, model.k0s(st, c[1], c[2], alpha, c[4], defect=True)) is None:
                        extra['known'].append(['F1', what])
                        v = None
            if v is None and c[0] != 'add':
                v = interp.differ(out, out.T)
                cls = 'symmetry' if v else cls
            if v is not None:
                return [cls, '%s: %s' % (what, v)], extra
        extra['stats']['assemblies_compared'] = n
        extra['nontrivial'] = n > 1
        return None, extra

    def rigid(self, K, st):
        n = K.shape[0]
        x = np.array(st['xyz'])
        x = x - x.mean(axis=0)
        size = max(1e-12, np.abs(x).max())
        for k, (u, v) in enumerate(((1, 0), (0, 1), (None, None))):
            d = np.zeros(n)
            d[0::5] = u if u is not None else -x[:, 1]/size
            d[1::5] = v if v is not None else x[:, 0]/size
            f = K.dot(d)
            if np.abs(f).max() > 1e-8*max(np.abs(K).max(), 1e-300):
                return 'rigid motion %d produces forces' % k
        return None


def all_checks():
    from . import checks2, checks3, checks4, checks5, checks6, checks7
    return {c.id: c for c in (C01, C02, C03, C04, C05, C06) + checks2.ALL + checks3.ALL + checks4.ALL + checks5.ALL + checks6.ALL + checks7.ALL}
