"""Interpolation and geometry helpers."""
import numpy as np

from . import gen, helpers, prints, world
from .checks import Check
from .checks2 import C09
from .runner import clone


class C14(Check):
    id = 'C14'
    rule = ('A run = a history of 8-40 calls of the interpolation, polygon area, unit vector and midpoint helpers in one thread '
            'or in 2-3 simulated threads, over a pool of argument objects of all layouts shared by the calls and overwritten or '
            'replaced by their owner in between; earlier results are overwritten too, some calls are interrupted, some are given '
            'inconsistent shapes. Every result is compared with a reference model of the values at the time of the call. '
            'Non-trivial: at least three results were compared. Distinct: by operations with their arguments and schedule.')
    assumptions = ['reference model: products of Lagrange polynomials in double precision, compared to 1e-9 of the sum of the '
                   'absolute values of the terms', 'control nodes are distinct, query points one dimensional or numbers']
    budget = {'quick': dict(runs=2600, wall=150), 'thorough': dict(runs=60000, wall=700)}

    # ---- generation ---------------------------------------------------------------------------------------
    def gen(self, rng, idx, ctx):
        plan = dict(specs=[], lams=[], setup=[], tasks=[], args={})
        nt = 1 if rng.random() < 0.55 else rng.choice([2, 2, 3])
        mesh = rng.random() < 0.4
        xyz = None
        if mesh:
            spec = world.gen_mesh(rng, src=rng.choice(['del2', 'del3', 'tri2', 'tri3', 'deck']), size='tiny', plain=True)
            plan['specs'].append(spec)
            h = gen.Hist(rng, plan)
            h.read('M0', 0)
            plan['setup'] = h.ops
        shared = [self.call(rng, plan, 's%d' % i, mesh) for i in range(rng.choice([0, 1, 2, 3]) if nt == 1 else rng.choice([1, 2, 3]))]
        for t in range(nt):
            own = [self.call(rng, plan, '%d%s' % (t, c), mesh) for c in 'abcd'[:rng.choice([1, 2, 3, 4])]]
            if mesh and nt == 1:
                h.ops = []
            ops = []
            n = rng.choice([8, 16, 40]) if nt == 1 else rng.choice([3, 6, 10])
            while len(ops) < n:
                r = rng.random()
                if r < 0.6:
                    op = clone(rng.choice(own + shared))
                    op['out'] = '%d.%d' % (t, rng.randrange(6))
                    if rng.random() < 0.06:
                        op['fault'] = dict(kind='line', n=int(10**rng.uniform(0, 2)),
                                           exc=rng.choice(['KeyboardInterrupt', 'MemoryError', 'InjectedError']))
                    if op['op'] == 'help' and rng.random() < 0.05:
                        self.mismatch(rng, plan, op)
                    ops.append(op)
                elif r < 0.85:
                    e = rng.choice(own)
                    if e['op'] == 'help':
                        ops.append(self.edit(rng, plan, e))
                elif r < 0.95:
                    ops.append(dict(op='scribres', r='%d.%d' % (t, rng.randrange(6)), v=rng.choice([0., 7e7, -1.])))
                elif mesh and nt == 1:
                    k = len(h.ops)
                    h.move('M0')
                    ops += h.ops[k:]
            for k, op in enumerate(ops):
                op['id'] = 100*t + k
            plan['tasks'].append(ops)
        plan['sched'] = dict(seed=rng.randrange(2**31))
        if nt > 1:
            plan['sched']['policy'] = dict(kind='random', p=rng.choice([0.01, 0.05, 0.2, 0.5]), pnew=rng.choice([0.05, 0.2, 0.5]))
        return plan

    def call(self, rng, plan, name, mesh):
        """a call and its argument objects"""
        fn = rng.choice(['lag2', 'lag2', 'lag2', 'lag3', 'lag3', 'area', 'area', 'unit'] + (['mid', 'emid', 'emid'] if mesh else []))
        if fn == 'mid':
            return dict(op='mid', m='M0', e=rng.randrange(30))
        if fn == 'emid':
            return dict(op='emid', m='M0', e=rng.randrange(len(plan['specs'][0]['tris'])))
        names = []

        def arg(key, vals, layout):
            plan['args'][name + key] = dict(vals=vals, **{'as': layout})
            names.append(name + key)
        ints = rng.random() < 0.2
        if fn in ('lag2', 'lag3'):
            d = 2 if fn == 'lag2' else 3
            top = 7 if d == 2 else 4
            shape = [rng.choice([1] + list(range(2, top))*3) for _ in range(d)]
            if rng.random() < 0.2:
                shape = [shape[0]]*d
            large = rng.random() < 0.05
            if large:
                shape = [rng.choice([7, 8, 9, 12]) for _ in range(2)] if d == 2 else [rng.choice([4, 5, 6]) for _ in range(3)]
            nodes = [helpers.gen_nodes(rng, m, ints) for m in shape]
            if rng.random() < 0.1 and shape[0] == shape[1]:
                nodes[1] = list(nodes[0])
            k = rng.choice([1, 2, 3, 5, 9, shape[0], shape[-1], 40 if large else 4])
            scalar = rng.random() < 0.1
            for c in range(d):
                q = helpers.gen_query(rng, nodes[c], k, ints)
                arg('xyz'[c], q[0] if scalar else q, 'scalar' if scalar else self.layout(rng, ints))
            for c in range(d):
                arg('lmn'[c], nodes[c], self.layout(rng, ints))
            if d == 2 and shape[0] == shape[1] and rng.random() < 0.1:      # the same object for two directions
                names[d + 1] = names[d]
                nodes[1] = nodes[0]
            arg('f', helpers.gen_field(rng, shape, ints), 'F' if rng.random() < 0.15 else self.layout(rng, ints))
        elif fn == 'area':
            x, y = helpers.gen_polygon(rng, ints)
            arg('x', x, self.layout(rng, ints))
            arg('y', y, self.layout(rng, ints))
        else:
            arg('v', helpers.gen_vector(rng, ints), self.layout(rng, ints))
        return dict(op='help', fn=fn, a=names)

    def layout(self, rng, ints):
        return rng.choice(helpers.LAYOUTS) if ints else rng.choice([l for l in helpers.LAYOUTS if not l.startswith('int')])

    def edit(self, rng, plan, call):
        """other values of the same shape for one or several arguments"""
        a = call['a']
        i = rng.randrange(len(a))
        d = {'lag2': 2, 'lag3': 3}.get(call['fn'])
        reg = plan['args'][a[i]]
        old = reg['vals']
        ints = reg['as'].startswith('int')
        if d is None and call['fn'] == 'area':
            # keeps the polygon simple: mirrored, shifted or scaled in one coordinate
            f, s = (rng.choice([-1., 2., 3.]), float(rng.randrange(-5, 6)))
            base = np.array(reg.setdefault('cur', old))
            new = (base*f + s).tolist()
            if max(abs(v) for v in new) > 1e6 or max(abs(v) for v in new) > 1e3*(max(new) - min(new)):
                new = old
            reg['cur'] = new
        elif d is None:
            new = helpers.gen_vector(rng, ints)
            while len(new) != len(old):
                new = helpers.gen_vector(rng, ints)
        elif i < d:
            if reg['as'] == 'scalar':
                new = helpers.gen_query(rng, plan['args'][a[d + i]]['vals'], 1, ints)[0]
            else:
                new = helpers.gen_query(rng, plan['args'][a[d + i]]['vals'], len(old), ints)
        elif i < 2*d:
            new = list(old)
            r = rng.random()
            if r < 0.4 and len(old) > 1:
                new.reverse()
            elif r < 0.7:
                f = rng.choice([2., -1., 4.])
                new = [v*f for v in new]
            else:
                new = helpers.gen_nodes(rng, len(old), ints)
        else:
            new = helpers.gen_field(rng, list(np.array(old).shape), ints)
        return dict(op='setarg', r=a[i], to=new, new=rng.random() < 0.3)

    def mismatch(self, rng, plan, op):
        """arguments whose shapes do not fit"""
        d = {'lag2': 2, 'lag3': 3}.get(op['fn'])
        if d is None:
            return
        shapes = [np.array(plan['args'][r]['vals']).shape for r in op['a']]
        i = rng.randrange(d, 2*d)
        other = [r for r in plan['args'] if r[0] in (op['a'][0][0], 's') and
                 len(np.array(plan['args'][r]['vals']).shape) == 1 and
                 len(plan['args'][r]['vals']) != shapes[i][0] and len(plan['args'][r]['vals']) > 0]
        if rng.random() < 0.4:
            fields = [r for r in plan['args'] if r[0] in (op['a'][0][0], 's') and
                      len(np.array(plan['args'][r]['vals']).shape) in (2, 3) and
                      np.array(plan['args'][r]['vals']).shape != shapes[-1]]
            if fields:
                op['a'] = op['a'][:-1] + [rng.choice(fields)]
                op['refuse'] = True
        elif other:
            op['a'] = list(op['a'])
            op['a'][i] = rng.choice(other)
            op['refuse'] = True

    # ---- decision -----------------------------------------------------------------------------------------
    def judge(self, plan, recs, info, ctx, where):
        extra = dict(stats=dict(results_compared=0, refused=0), nontrivial=False, known=[])
        if info['abort']:
            return ['no progress', info['abort']], extra
        cur = {r: helpers.values(a['vals'], a['as']) for r, a in plan['args'].items()}
        n = 0
        for op, rec, req, w in self.requests(plan, recs):
            o = op['op']
            if rec.get('skip'):
                continue
            if o == 'setarg':
                cur[op['r']] = helpers.values(op['to'], plan['args'][op['r']]['as'])
                continue
            if o == 'read' and rec['exc']:
                return ['read raised', str(rec['exc'])], extra
            if o not in ('help', 'mid', 'emid'):
                continue
            name = op.get('fn', o)
            what = '%s (operation %s of thread %s)' % (name, rec['k'], rec['t'])
            if rec['bad']:
                return ['%s: %s' % (name, rec['bad'][0]), 'after ' + what], extra
            if rec.get('fired'):
                continue
            if op.get('refuse'):
                extra['stats']['refused'] += 1
                if rec['exc'] is None:
                    return ['not refused', '%s with shapes %s' % (what, [np.shape(cur[r]) for r in op['a']])], extra
                continue
            if rec['exc'] is not None:
                return ['raised in ' + name, '%s raised %s: %s' % (what, rec['exc'][0], rec['exc'][1])], extra
            n += 1
            v = self.value(plan, op, rec, cur, w)
            if v == 'F2':
                extra['known'].append(['F2', what])
            elif v:
                return ['value of ' + name, '%s: %s' % (what, v)], extra
        extra['stats']['results_compared'] = n
        extra['nontrivial'] = n > 2
        return None, extra

    def value(self, plan, op, rec, cur, w):
        out = rec['out']
        if op['op'] in ('mid', 'emid'):
            spec = plan['specs'][0]
            xyz = w.meshes[op['m']]['xyz']
            if op['op'] == 'mid':
                nids = world.all_nids(spec)
                p = [xyz[nids.index(i)] for i in rec['nids']]
            else:
                p = [xyz[i] for i in spec['tris'][op['e']]]
            p = np.array(p)
            return self.close(out, p.mean(axis=0), np.abs(p).sum())
        a = [cur[r] for r in op['a']]
        if op['fn'] == 'area':
            want, mag = helpers.polygon(*a)
            if out.shape != ():
                return 'shape %s' % (out.shape,)
            if not abs(float(out) - want) <= 1e-9*want + 1e-13*mag:
                return '%.12g instead of %.12g' % (float(out), want)
            return None
        if op['fn'] == 'unit':
            v = a[0]
            s = np.abs(v).max()
            return self.close(out, v/s/np.sqrt(((v/s)**2).sum()), 1.)
        d = 2 if op['fn'] == 'lag2' else 3
        return helpers.check_lagrange(out, a[:d], a[d:2*d], a[2*d])

    def close(self, got, want, mag):
        if got.shape != want.shape:
            return 'shape %s instead of %s' % (got.shape, want.shape)
        if not (np.abs(got - want) <= 1e-12*mag).all():
            return '%s instead of %s' % (got.tolist(), want.tolist())
        return None

    def fine(self, op):
        return op and [op.get(k) for k in ('op', 'fn', 'a', 'r', 'fault', 'e', 'new', 'refuse')]

    def signature(self, plan, recs, info):
        return [Check.signature(self, plan, recs, info), [(r, a['as'], a['vals']) for r, a in sorted(plan['args'].items())]]


# =====================================================================================================================
class C15(C09):
    id = 'C15'
    turnover = 0.25
    hashseeds = False
    rule = ('A run = 3-12 printing calls over 1-3 matrices, substitutions and symbol lists shared by the calls (edited or replaced '
            'by the caller in between), in one thread or 2-3 simulated threads, some interrupted; each printed text is read back '
            'and evaluated at random values of the symbols, entry by entry, and compared with the expressions the caller '
            'put into the matrix at the time of the call. Non-trivial: at least two texts were evaluated. Distinct: by calls and '
            'schedule.')
    assumptions = ['oracle: Python arithmetic on the texts of the expressions, not sympy', 'preemption and interrupts strike between '
                   'statements of meshless code, not inside sympy',
                   'where the caller gives one symbol to expressions of different value the text is not evaluated']
    budget = {'quick': dict(runs=1500, wall=150), 'thorough': dict(runs=30000, wall=700)}

    def judge(self, plan, recs, info, ctx, where):
        extra = dict(stats=dict(texts_evaluated=0), nontrivial=False)
        if info['abort']:
            return ['no progress', info['abort']], extra
        n = 0
        by = {}
        for r in recs:
            by.setdefault(r['t'], []).append(r)
        for t in sorted(by):
            cur = clone(plan['pool'])
            for r in by[t]:
                op = self.op_of(plan, r)
                if op['op'] == 'edit':
                    prints.follow(cur, op)
                    continue
                if r.get('fired'):
                    continue
                what = 'mprint_as_%s (call %s of thread %s)' % (op['fn'], r['k'], t)
                if r['exc'] is not None:
                    return ['raised', '%s: %s' % (what, r['exc'])], extra
                if not isinstance(r['out'], str):
                    return ['no text', what], extra
                v = prints.check_value(r['out'], prints.resolve(cur, op), op['id'])
                if v:
                    return ['value of ' + op['fn'], '%s: %s' % (what, v)], extra
                n += 1
        extra['stats']['texts_evaluated'] = n
        extra['nontrivial'] = n > 1
        return None, extra


ALL = (C14, C15)
