"""Printing histories, independent meshes, incidental order, refused requests, progress messages."""
import base64
import shutil

import numpy as np

from . import base, gen, interp, prints, world
from .checks import C01, C03, Check, write_specs
from .runner import clone


# =====================================================================================================================
class C09(Check):
    id = 'C09'
    hashseeds = True
    rule = ('A run = 3-12 printing calls over 1-3 matrices, substitutions and symbol lists shared by the calls (edited or '
            'replaced by the caller in between), in one thread or 2-3 simulated threads, some interrupted; each text is compared '
            'with the call alone in a pristine process, all arguments are compared after each call, and the whole run is '
            'repeated in an interpreter with another hash seed. Non-trivial: at least two calls returned. Distinct: by calls '
            'and schedule.')
    assumptions = ['preemption and interrupts strike between statements of meshless code, not inside sympy']
    budget = {'quick': dict(runs=420, wall=150), 'thorough': dict(runs=9000, wall=700)}

    def gen(self, rng, idx, ctx):
        plan = dict(specs=[], lams=[], setup=[], tasks=[],
                    pool=dict(mats=[prints.gen_mat(rng) for _ in range(rng.choice([1, 1, 2, 3]))],
                              subs=[prints.gen_subs(rng) for _ in range(rng.choice([0, 1, 2]))],
                              colls=[prints.gen_collect(rng) for _ in range(rng.choice([0, 1, 2]))]))
        if rng.random() < 0.3:
            # two matrices of equal content but different objects, or of the same shape
            plan['pool']['mats'].append(clone(plan['pool']['mats'][0]))
        calls = [self.call(rng, plan) for _ in range(rng.choice([1, 2, 3, 4]))]
        if rng.random() < 0.45:
            nt = rng.choice([2, 2, 3])
            for t in range(nt):
                plan['tasks'].append([self.again(rng, calls, plan) for _ in range(rng.choice([1, 2, 3]))])
        else:
            ops = []
            cur = clone(plan['pool'])
            n, p = rng.choice([3, 5, 8, 12, 12, 20]), 0.35
            if rng.random() < 0.04:         # many short-lived matrices
                n, p = 60, 0.5
            for _ in range(n):
                if rng.random() < p:
                    ops.append(self.edit(rng, cur))
                else:
                    ops.append(self.again(rng, calls, plan))
            if rng.random() < self.turnover:
                ops = self.replaced(rng, plan)
            plan['tasks'] = [ops]
        for t, ops in enumerate(plan['tasks']):
            for k, op in enumerate(ops):
                op['id'] = 100*t + k
                if op['op'] == 'print' and rng.random() < 0.08:
                    op['fault'] = dict(kind='line', n=int(10**rng.uniform(0, 2)),
                                       exc=rng.choice(['KeyboardInterrupt', 'MemoryError']))
        plan['sched'] = dict(seed=rng.randrange(2**31))
        if len(plan['tasks']) > 1:
            plan['sched']['policy'] = dict(kind='random', p=rng.choice([0.01, 0.05, 0.3]), pnew=rng.choice([0.05, 0.2]))
        return plan

    turnover = 0.04

    def replaced(self, rng, plan):
        """one matrix after the other, each printed once and dropped before the next is made"""
        plan['pool'] = dict(mats=[prints.gen_matrix(rng, rng.choice([2, 3, 4]), rng.choice([2, 4]))], subs=[], colls=[])
        op = self.call(rng, plan)
        op['kw'].pop('dofpernode', None)
        ops = [op]
        m = plan['pool']['mats'][0]
        for _ in range(rng.choice([4, 7, 10])):
            ops.append(dict(op='edit', what='new', i=0, to=prints.gen_matrix(rng, len(m), len(m[0])), gc=rng.random() < 0.8))
            op = clone(op)
            if rng.random() < 0.3:
                op['fn'] = rng.choice(['sparse', 'dense', 'array'])
                op['kw'] = {k: v for k, v in op['kw'].items() if k in ('print_file', 'header')}
            ops.append(op)
        return ops

    def call(self, rng, plan):
        op = prints.gen_print(rng)
        pool = plan['pool']
        for k in ('mat', 'subs', 'collect'):
            op.pop(k, None)
        op['mi'] = rng.randrange(len(pool['mats']))
        if op['fn'] != 'array' and pool['subs'] and rng.random() < 0.6:
            op['si'] = rng.randrange(len(pool['subs']))
        if pool['colls'] and rng.random() < 0.4:
            op['ci'] = rng.randrange(len(pool['colls']))
        m = pool['mats'][op['mi']]
        if op['fn'] != 'array' and len(m) > 6 and rng.random() < 0.8:
            op['kw']['dofpernode'] = rng.choice([2, 3, 5])
        if 'dofpernode' in op['kw'] and (len(m) % op['kw']['dofpernode'] or len(m[0]) % op['kw']['dofpernode']):
            del op['kw']['dofpernode']
        return op

    def again(self, rng, calls, plan):
        op = clone(rng.choice(calls)) if rng.random() < 0.8 else self.call(rng, plan)
        r = rng.random()
        if r < 0.15:
            op['mi'] = rng.randrange(len(plan['pool']['mats']))
            op['kw'].pop('dofpernode', None)
        elif r < 0.3:
            op['name'] = rng.choice(prints.NAMES)
        return op

    def edit(self, rng, cur):
        what = rng.choice(['mat', 'mat', 'new'] + (['subs'] if cur['subs'] else []) + (['coll'] if cur['colls'] else []))
        if what in ('mat', 'new'):
            i = rng.randrange(len(cur['mats']))
            m = cur['mats'][i]
            if what == 'new':
                op = dict(op='edit', what='new', i=i, to=prints.gen_matrix(rng, len(m), len(m[0])), gc=rng.random() < 0.5)
            else:
                op = dict(op='edit', what='mat', i=i, r=rng.randrange(len(m)), c=rng.randrange(len(m[0])),
                          to=rng.choice(['0', prints.gen_expr(rng)]))
        elif what == 'subs':
            i = rng.randrange(len(cur['subs']))
            op = dict(op='edit', what='subs', i=i, key=rng.choice(cur['subs'][i])[0], to='S%d' % rng.randrange(9))
        else:
            op = dict(op='edit', what='coll', i=rng.randrange(len(cur['colls'])),
                      to=prints.gen_collect(rng))
        prints.follow(cur, op)
        return op

    def judge(self, plan, recs, info, ctx, where):
        extra = dict(stats=dict(prints_compared=0), nontrivial=False)
        if info['abort']:
            return ['no progress', info['abort']], extra
        n = 0
        canon = []
        by = {}
        for r in recs:
            by.setdefault(r['t'], []).append(r)
        for t in sorted(by):
            cur = clone(plan['pool'])
            for r in by[t]:
                op = self.op_of(plan, r)
                what = 'mprint_as_%s (call %s of thread %s)' % (op.get('fn'), r['k'], t)
                if op['op'] == 'edit':
                    prints.follow(cur, op)
                    continue
                if r.get('fired'):
                    if 'input:print' in r['bad']:
                        return ['arguments changed', 'after the interrupted ' + what], extra
                    continue
                req = prints.resolve(cur, op)
                exc, text = ctx.cached(['print', req], lambda: ctx.fork(prints.solo, req))
                canon.append([r['exc'] and r['exc'][0], r['out']])
                if 'input:print' in r['bad']:
                    return ['arguments changed', 'after ' + what], extra
                if exc is None and r['exc'] is not None:
                    return ['raised', '%s: %s' % (what, r['exc'])], extra
                if exc is not None and r['exc'] is None:
                    return ['did not raise', '%s; alone: %s' % (what, exc)], extra
                if exc is None and r['out'] != text:
                    return ['other text', '%s: %s' % (what, first_difference(r['out'], text))], extra
                n += 1
        if info.get('pool_changed'):
            return ['arguments changed', 'by concurrent printing'], extra
        extra['canon'] = canon
        extra['stats']['prints_compared'] = n
        extra['nontrivial'] = n > 1
        return None, extra

    def compare(self, a, b):
        if a == b:
            return None
        for x, y in zip(a, b):
            if x != y:
                return 'two interpreters print different texts: %s' % (first_difference(x[1], y[1]))
        return None


def first_difference(a, b):
    if not isinstance(a, str) or not isinstance(b, str):
        return '%r instead of %r' % (a, b)
    for x, y in zip(a.split('\n'), b.split('\n')):
        if x != y:
            return 'line %r instead of %r' % (x[:120], y[:120])
    return '%d characters instead of %d' % (len(a), len(b))


# =====================================================================================================================
class C10(Check):
    id = 'C10'
    rule = ('A run = a history of 8-24 operations on 2-5 meshes read from one or two sources (the same deck, the same points '
            'array and triangulation object, in several forms), edited, analysed and dropped in any order, the caller overwriting '
            'the arrays in between; after each operation the inputs of all other meshes are compared bit for bit, shared '
            'modifiable objects and memory are searched, and every assembly is compared with the same call on a fresh mesh. '
            'Non-trivial: two meshes from one source and an edit. Distinct: by operations with their arguments.')
    assumptions = C03.assumptions
    budget = {'quick': dict(runs=420, wall=150), 'thorough': dict(runs=9000, wall=700)}

    def gen(self, rng, idx, ctx):
        plan = dict(specs=[], lams=gen.lams(rng), setup=[], tasks=[], disjoint=True, conn=True)
        for _ in range(rng.choice([1, 1, 2])):
            plan['specs'].append(world.gen_mesh(rng, src=rng.choice(['deck', 'del2', 'del3', 'del3', 'tri2', 'tri3', 'tri3']),
                                                size='tiny' if rng.random() < 0.6 else None))
        kinds = [rng.choice(['array', 'array', 'array', 'list', 'rows', 'F', 'view']) for _ in plan['specs']]
        h = gen.Hist(rng, plan)
        nm = 0
        edits = 0
        n = rng.choice([8, 14, 20])
        cap = 5
        if rng.random() < 0.03:
            n, cap = 60, 15
        while len(h.ops) < n:
            k = rng.choice(['read', 'read', 'move', 'move', 'props', 'k0', 'k0', 'add', 'kG', 'scribpts', 'mutlam', 'drop'])
            names = sorted(h.m)
            if k == 'read' or not names:
                if nm >= cap:
                    continue
                self.read(rng, plan, h, 'M%d' % nm, kinds)
                nm += 1
                continue
            name = rng.choice(names)
            if k == 'move':
                h.move(name)
                edits += 1
            elif k == 'props':
                h.props(name, rng.choice(['both', 'node', 'elem']))
                edits += 1
            elif k == 'k0':
                h.k0(name)
            elif k == 'add':
                h.analyse(name)
                h.add(name, h.mat(name, ['zeros', 'rand']))
            elif k == 'kG':
                h.analyse(name)
                h.kG(name)
            elif k == 'scribpts':
                i = rng.randrange(len(plan['specs']))
                if plan['specs'][i]['src'] != 'deck':
                    h.emit(dict(op='scribpts', spec=i, what=rng.choice(['points', 'points', 'simplices']),
                                f=rng.choice([0., -2., 1.]), a=rng.choice([1e3, 0.25])))
                    edits += 1
            elif k == 'drop' and len(names) > 1 and rng.random() < 0.3:
                h.emit(dict(op='drop', k=name, mesh=True, gc=rng.random() < 0.5))
                h.m.pop(name)
                h.mats = {a: b for a, b in h.mats.items() if b != name}
        for name in sorted(h.m):
            st = h.m[name]
            if st['fresh'] and rng.random() < 0.5:
                h.kG(name) if rng.random() < 0.5 else h.add(name, h.mat(name, ['zeros']))
            h.k0(name)
            h.kG(name)
        plan['tasks'] = [h.ops]
        return plan

    def read(self, rng, plan, h, name, kinds):
        i = rng.randrange(len(plan['specs']))
        spec = plan['specs'][i]
        if spec['src'] == 'deck':
            h.read(name, i)
            return
        kw = dict(share=rng.random() < 0.85)
        kw['as'] = kinds[i]
        xyz = None
        if rng.random() < 0.3:          # other coordinates in the same array
            op, xyz = gen.gen_move(rng, name, spec, world.all_xyz(spec), world.all_xyz(spec))
            if op is None or (spec['src'] in ('del2', 'tri2') and any(p[2] for p in xyz)):
                xyz = None
        if xyz is not None:
            kw['xyz'] = xyz
        h.read(name, i, **kw)
        if xyz is not None:
            h.m[name]['xyz'] = [list(p) for p in xyz]
            h.m[name]['orig'] = [list(p) for p in xyz]

    def judge(self, plan, recs, info, ctx, where):
        extra = dict(stats=dict(assemblies_compared=0, reads=0))
        src = {}
        edits = 0
        for op, rec, req, w in self.requests(plan, recs):
            what = '%s (operation %s)' % (op['op'], rec['k'])
            if rec.get('skip'):
                continue
            if op['op'] == 'read':
                extra['stats']['reads'] += 1
                src[op['spec']] = src.get(op['spec'], 0) + 1
                if rec['exc']:
                    return ['read raised', '%s: %s' % (what, rec['exc'])], extra
                want = op.get('xyz') or world.all_xyz(plan['specs'][op['spec']])
                if rec['xyz'] != want:
                    return ['coordinates', '%s gave a mesh with other coordinates than the caller\'s points' % what], extra
                if rec.get('conn') and not (rec['conn'] == 'coordinates' and op.get('xyz')):
                    return ['new mesh', '%s gave a mesh that is not new or not complete: %s' % (what, rec['conn'])], extra
            if op['op'] in ('move', 'props', 'scribpts'):
                edits += 1
            bad = [b for b in rec['bad'] if b.startswith('alias:') or b.startswith('input:')]
            if bad:
                return [bad[0], 'after ' + what], extra
            if req is not None:
                extra['stats']['assemblies_compared'] += 1
                v = self.against_solo(plan, op, rec, req, ctx, where)
                if v:
                    return ['mesh disturbed: ' + op['op'], '%s: %s' % (what, v)], extra
        extra['nontrivial'] = edits > 0 and any(v > 1 for v in src.values())
        return None, extra


# =====================================================================================================================
def pack(a):
    return base64.b64encode(np.ascontiguousarray(a, dtype=np.float64).tobytes()).decode()


def unpack(s):
    a = np.frombuffer(base64.b64decode(s), dtype=np.float64)
    n = int(round(len(a)**0.5))
    return a.reshape(n, n)


class C11(Check):
    id = 'C11'
    hashseeds = True
    rule = ('A run = a mesh delivered in its canonical order and in 1-4 seeded variants (triangles permuted, their nodes turned '
            'and reversed, grid points permuted, element ids renumbered), each read and analysed after a seeded perturbation of the '
            'heap, in one process or several; matrices are compared node by node, node numbering with the position in the mesh, '
            'and the run is repeated in an interpreter with another hash seed and heap. Non-trivial: a variant differs from the '
            'canonical order. Distinct: by mesh and variants.')
    assumptions = ['equality to 1e-9 of the largest entry of the class of degrees of freedom',
                   'addresses are varied by heap ballast and by process, with address randomisation off so that runs repeat']
    budget = {'quick': dict(runs=320, wall=150), 'thorough': dict(runs=7000, wall=700)}

    def gen(self, rng, idx, ctx):
        spec = world.gen_mesh(rng, src=rng.choice(['deck', 'deck', 'tri2', 'tri3', 'del2']),
                              size=rng.choice(['tiny', None, None, 'big' if rng.random() < 0.3 else None]))
        nn, ne = len(spec['pts']), len(spec['tris'])
        lams = gen.lams(rng, rng.choice([1, 2, 4]))
        plan = dict(specs=[spec], lams=lams, setup=[], tasks=[[]], variants=[],
                    pn=[rng.randrange(len(lams)) for _ in range(nn)], pe=[rng.randrange(len(lams)) for _ in range(ne)],
                    pfn=rng.random() < 0.5, pfn2=rng.random() < 0.5, d=gen.gen_d(rng), alpha=rng.choice([0.08, 0.3, 0.]),
                    mfa=rng.random() < 0.3, apart=rng.random() < 0.5, heap=rng.randrange(1, 2**31),
                    thick=rng.random() < 0.5)
        for _ in range(rng.choice([1, 2, 3, 4])):
            v = dict(order=list(range(ne)), turn=[0]*ne, grid=list(range(nn)), eids=list(range(ne)))
            kinds = rng.sample(['order', 'turn', 'grid', 'eids'], rng.randint(1, 4))
            if 'order' in kinds:
                if rng.random() < 0.3:
                    v['order'].reverse()
                else:
                    rng.shuffle(v['order'])
            if 'turn' in kinds:
                v['turn'] = [rng.randrange(6) for _ in range(ne)] if rng.random() < 0.7 else [rng.randrange(6)]*ne
            if 'grid' in kinds and spec['src'] != 'del2':
                rng.shuffle(v['grid'])
            if 'eids' in kinds:
                rng.shuffle(v['eids'])
            plan['variants'].append(v)
        return plan

    def run(self, plan, ctx):
        where = ctx.newdir()
        try:
            vs = [None] + plan['variants']
            specs = [self.variant(plan['specs'][0], v) for v in vs]
            write_specs(dict(specs=specs), where)
            if plan['apart']:
                res = [ctx.fork(analyse_variants, plan, [s], [v], where, k) for k, (s, v) in enumerate(zip(specs, vs))]
                res = [r[0] for r in res]
            else:
                res = ctx.fork(analyse_variants, plan, specs, vs, where, 0)
            viol, extra = self.compare_all(plan, res, vs)
        finally:
            shutil.rmtree(where, ignore_errors=True)
        recs = [dict(t=0, k=k, op='variant', exc=r.get('exc'), out=None) for k, r in enumerate(res)]
        out = self.result(dict(plan, tasks=[[dict(op='variant')]*len(res)]), recs,
                          dict(steps=0, switches=[], fired=[], abort=None), viol, extra)
        out['plan'] = plan
        out['sig'] = base.digest([plan['specs'], plan['variants'], plan['pfn'], plan['apart']])
        out['digest'] = base.digest([[r.get('exc'), interp_sum(r)] for r in res])
        out['canon'] = [[r.get('exc'), r.get('index'), r.get('nids')] + [r.get(k) and [r[k]] for k in ('k0', 'kG', 'ks')]
                        for r in res[:2]]
        out['nontrivial'] = len(specs) > 1
        return out

    def sample(self, plan):
        s = plan['specs'][0]
        return dict(spec='%s %dn/%dt' % (s['src'], len(s['pts']), len(s['tris'])), variants=len(plan['variants']),
                    apart=plan['apart'], heap=plan['heap'])

    def variant(self, spec, v):
        if v is None:
            return spec
        s = clone(spec)
        if s['src'] == 'deck':
            d = s['deck']
            d['eorder'] = [d['eorder'][k] for k in v['order']]
            d['gorder'] = [d['gorder'][k] for k in v['grid']]
            d['eids'] = [d['eids'][k] for k in v['eids']]
            s['tris'] = [world.turn(t, k) for t, k in zip(s['tris'], v['turn'])]
            return s
        new = {old: k for k, old in enumerate(v['grid'])}
        s['pts'] = [s['pts'][k] for k in v['grid']]
        s['tris'] = [world.turn([new[i] for i in s['tris'][k]], v['turn'][k]) for k in v['order']]
        if s['src'] == 'del2':
            s['src'] = 'tri2'
        return s

    def compare_all(self, plan, res, vs):
        extra = dict(stats=dict(variants=len(res) - 1, matrices_compared=0))
        for k, r in enumerate(res):
            if r.get('exc'):
                return ['raised', 'variant %d: %s' % (k, r['exc'])], extra
            if r['index'] != list(range(len(r['index']))):
                return ['numbering', 'the k-th node does not occupy the k-th block: %s' % r['index']], extra
            if r['back'] != r['index']:
                return ['numbering', 'numbering changed when the analysis was repeated'], extra
        a = res[0]
        for k, r in enumerate(res[1:]):
            n = len(a['points'])
            perm = [r['points'].index(p) for p in a['points']]       # row block of variant for node of canonical order
            rows = np.concatenate([np.arange(5) + 5*p for p in perm]) if n else []
            for m in ('k0', 'kG', 'ks'):
                d = interp.differ(unpack(r[m])[np.ix_(rows, rows)], unpack(a[m]))
                extra['stats']['matrices_compared'] += 1
                if d:
                    return ['order matters to ' + m, 'variant %d: %s' % (k, d)], extra
        return None, extra

    def compare(self, a, b):
        if a is None or b is None:
            return None
        for x, y in zip(a, b):
            if (x[0] is None) != (y[0] is None):
                return 'one of two interpreters raised: %s / %s' % (x[0], y[0])
            if x[0] is not None:
                continue
            if x[1] != y[1] or x[2] != y[2]:
                return 'two interpreters number the nodes differently'
            for m, p, q in zip(('k0', 'kG', 'ks'), x[3:], y[3:]):
                d = interp.differ(unpack(p[0]), unpack(q[0]))
                if d:
                    return 'two interpreters give different %s: %s' % (m, d)
        return None

    def shrinks(self, plan):
        for k in range(len(plan['variants'])):
            if len(plan['variants']) > 1:
                p = clone(plan)
                p['variants'] = [p['variants'][k]]
                yield p
        for k, v in enumerate(plan['variants']):
            for key, ident in (('order', list(range(len(v['order'])))), ('turn', [0]*len(v['turn'])),
                               ('grid', list(range(len(v['grid'])))), ('eids', list(range(len(v['eids']))))):
                if v[key] != ident:
                    p = clone(plan)
                    p['variants'][k][key] = ident
                    yield p
        for key in ('apart', 'mfa'):
            if plan[key]:
                p = clone(plan)
                p[key] = False
                yield p


def interp_sum(r):
    return ['%.5g' % float(np.abs(unpack(r[k])).sum()) if r.get(k) else None for k in ('k0', 'kG', 'ks')]


def analyse_variants(plan, specs, vs, where, k0):
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_calc_kG import calc_kG
    from meshless.espim.plate2d_add_k0s import add_k0s
    import os
    from .checks import ballast
    out = []
    lams = [world.make_lam(s) for s in plan['lams']]
    canon = plan['specs'][0]
    pts = [tuple(world.point(canon, i)) for i in range(len(canon['pts']))]
    for j, (spec, v) in enumerate(zip(specs, vs)):
        keep = ballast(plan['heap'] + 7919*(k0 + j) + int(os.environ.get('PYTHONHASHSEED') or 0))
        try:
            mesh = world.read(spec, os.path.join(where, 'spec%d' % (k0 + j)))
            names = {}
            for n, p in zip(world.nids_of(spec), spec['pts']):
                names[n] = pts.index((p[0], p[1], spec['z']))
            for n, node in mesh.nodes.items():
                node.prop = lams[plan['pn'][names[n]]] if n in names else None
            bykey = {tuple(sorted(t)): plan['pe'][i] for i, t in enumerate(canon['tris'])}
            for e in mesh.elements.values():
                e.prop = lams[bykey[tuple(sorted(names[x.nid] for x in e.nodes))]]
            n = len(mesh.nodes)
            order = [names.get(x) for x in mesh.nodes]
            k = calc_k0(mesh, plan['pfn'])
            index = [int(x.index) for x in mesh.nodes.values()]
            full = interp.vector(dict(plan['d'], kind='plain'), 5*(len(pts) + 4)).reshape(-1, 5)
            d = np.array([full[i] if i is not None else full[-1]*0 for i in order]).reshape(-1)
            kG = calc_kG(d, mesh, plan['pfn2'])
            ks = np.zeros((5*n, 5*n))
            add_k0s(ks, mesh, plan['pfn2'], 'cell-based', alpha=plan['alpha'], maxl_from_area=plan['mfa'])
            calc_k0(mesh, plan['pfn'])
            back = [int(x.index) for x in mesh.nodes.values()]
            out.append(dict(k0=pack(k), kG=pack(kG), ks=pack(ks), index=index, back=back, nids=list(mesh.nodes),
                            points=[-1 if o is None else o for o in order]))
        except Exception as e:
            out.append(dict(exc=[type(e).__name__, str(e)[:200]]))
        del keep
    return out


# =====================================================================================================================
BAD_METHODS = ['cell_based', 'Cell-based', 'edge', 'cell-based ', '', 'edge-based-no-smoothing', 'cell', None, 'node-based',
               'smoothing', 'cell-based-no-smoothin', 'EDGE-BASED', 3]
BAD_CARDS = {
    'CQUAD4': lambda e, n: ['CQUAD4,%d,1,%d,%d,%d,%d' % (e, n[0], n[1], n[2], n[3])],
    'CROD': lambda e, n: ['CROD,%d,9,%d,%d' % (e, n[0], n[1]), 'PROD,9,1,1.0,1.0'],
    'CBAR': lambda e, n: ['CBAR,%d,8,%d,%d,0.0,0.0,1.0' % (e, n[0], n[1]), 'PBAR,8,1,1.0,1.0,1.0,1.0'],
    'CTETRA': lambda e, n: ['CTETRA,%d,7,%d,%d,%d,%d' % (e, n[0], n[1], n[2], n[3]), 'PSOLID,7,1'],
    'CTRIA6': lambda e, n: ['CTRIA6,%d,1,%d,%d,%d,,,' % (e, n[0], n[1], n[2])],
    'CTRIAR': lambda e, n: ['CTRIAR,%d,1,%d,%d,%d' % (e, n[0], n[1], n[2])],
    'CBUSH': lambda e, n: ['CBUSH,%d,6,%d,%d,,,,0' % (e, n[0], n[1]), 'PBUSH,6,K,1.0'],
}


class C12(Check):
    id = 'C12'
    rule = ('A run = a history of 8-22 operations on 1-2 meshes in which requests that must be refused (stiffness with a '
            'property missing at one or several positions, unknown shear methods, an edge with a third triangle, decks with an '
            'unsupported element) are placed between valid ones, the causes being removed again; every refused call must raise and '
            'leave matrices, inputs and node numbering bit for bit, and every other result equals that of the same call on a '
            'fresh mesh. Non-trivial: a refused call between valid ones. Distinct: by operations with their arguments.')
    assumptions = C03.assumptions
    budget = {'quick': dict(runs=440, wall=150), 'thorough': dict(runs=9000, wall=700)}

    def gen(self, rng, idx, ctx):
        plan, h = C03().history(rng, nmax=2)
        for name in sorted(h.m):
            if h.m[name]['pn'] is None or h.m[name]['pe'] is None:
                h.props(name, 'both')
        if rng.random() < 0.5:
            # a mesh with an over-shared edge
            s = world.gen_mesh(rng, src=rng.choice(['tri2', 'tri3', 'deck']), size='tiny', plain=True)
            self.overshare(rng, s)
            plan['specs'].append(s)
        n = rng.choice([8, 14, 20])
        ds = [i for i, s in enumerate(plan['specs']) if s['src'] == 'deck' and not s.get('over')]
        while len(h.ops) < n:
            name = rng.choice(sorted(k for k in h.m if not h.m[k]['spec'].get('over')))
            k = rng.choice(['k0', 'add', 'kG', 'move', 'props', 'prop!', 'prop!', 'prop!', 'method!', 'method!', 'edge!', 'edge!',
                            'deck!', 'over!', 'mat'])
            if k == 'k0':
                h.k0(name)
            elif k == 'add':
                h.analyse(name)
                h.add(name)
            elif k == 'kG':
                h.analyse(name)
                h.kG(name)
            elif k == 'mat':
                h.mat(name)
            elif k == 'move':
                h.move(name)
            elif k == 'props':
                h.props(name, 'both')
            elif k == 'prop!':
                self.missing(rng, h, name)
            elif k == 'method!':
                if h.m[name]['fresh'] or rng.random() < 0.3:
                    own = [x for x, m in h.mats.items() if h.size(m) == h.size(name)]
                    kk = rng.choice(own) if own and rng.random() < 0.6 else h.mat(name)
                    h.emit(dict(op='add', k=kk, m=name, pfn=h.pfn(name), method=rng.choice(BAD_METHODS), refuse=True, keep=True))
            elif k == 'edge!':
                self.edge(rng, h, name)
            elif k == 'deck!' and ds:
                self.deck(rng, plan, h, rng.choice(ds))
            elif k == 'over!' and plan['specs'][-1].get('over') and not any(o.get('m') == 'OV' for o in h.ops):
                h.emit(dict(op='read', m='OV', spec=len(plan['specs']) - 1))
                h.m['OV'] = dict(spec=plan['specs'][-1], xyz=world.all_xyz(plan['specs'][-1]), pn=None, pe=None, fresh=False,
                                 orig=None)
                op = gen.gen_props(rng, plan, 'OV', plan['specs'][-1], None, 'both')
                h.emit(op)
                for _ in range(2):
                    h.emit(dict(op='k0', m='OV', pfn=rng.random() < 0.5, out='KOV', refuse=True))
                del h.m['OV']
        for name in sorted(h.m):
            if h.m[name]['fresh']:
                h.add(name, h.mat(name, ['zeros'])) if rng.random() < 0.5 else h.kG(name)
            h.k0(name)
        plan['tasks'] = [h.ops]
        return plan

    def overshare(self, rng, s):
        t = rng.choice(s['tris'])
        s['pts'].append([s['pts'][t[0]][0] + 0.37*(1 + abs(s['pts'][t[0]][0])), s['pts'][t[1]][1] - 0.41])
        s['pts'][-1] = [round(v, 3) for v in s['pts'][-1]]
        # edges already shared by two triangles get a third; if there is none, two more triangles on one edge
        cnt = {}
        for u in s['tris']:
            for a, b in ((0, 1), (1, 2), (2, 0)):
                cnt.setdefault(tuple(sorted((u[a], u[b]))), []).append(u)
        full = sorted(k for k, v in cnt.items() if len(v) == 2)
        e = rng.choice(full)
        s['tris'].insert(rng.randrange(len(s['tris']) + 1), [e[0], e[1], len(s['pts']) - 1])
        s['over'] = True
        if s['src'] == 'deck':
            s['deck'] = world.gen_deck(rng, len(s['pts']), len(s['tris']), True)

    def missing(self, rng, h, name):
        st = h.m[name]
        pfn = rng.random() < 0.5
        used = sorted(set(k for t in st['spec']['tris'] for k in t))
        items = used if pfn else list(range(len(st['spec']['tris'])))
        ks = rng.sample(items, rng.choice([1, 1, 1, min(2, len(items)), len(items)]))
        src = 'node' if pfn else 'elem'
        if rng.random() < 0.2:
            h.move(name)
        for k in ks:
            h.emit(dict(op='unprop', m=name, src=src, k=k))
        for _ in range(rng.choice([1, 1, 2])):
            h.emit(dict(op='k0', m=name, pfn=pfn, out='KX', refuse=True))
            if st['fresh'] and rng.random() < 0.4:
                h.add(name, h.mat(name, ['zeros']), pfn=not pfn)
            if st['fresh'] and rng.random() < 0.4:
                h.kG(name)
                h.ops[-1]['pfn'] = not pfn
        for k in ks:
            h.emit(dict(op='reprop', m=name, src=src, k=k))
        r = rng.random()
        if r < 0.4:
            h.k0(name)
            h.ops[-1]['pfn'] = pfn
        elif st['fresh'] and r < 0.9:
            h.add(name, h.mat(name, ['zeros', 'rand'])) if rng.random() < 0.5 else h.kG(name)

    def edge(self, rng, h, name):
        st = h.m[name]
        moved = None
        if rng.random() < 0.4 and st['fresh']:
            # moved, refused, moved back: the earlier analysis can be continued
            old = [list(p) for p in st['xyz']]
            op, new = gen.gen_move(rng, name, st['spec'], st['xyz'], st['orig'])
            if op:
                moved = op, old
                h.emit(dict(op, keepstate=True))
        h.emit(dict(op='break', m=name, e=rng.randrange(60)))
        h.emit(dict(op='k0', m=name, pfn=rng.random() < 0.5, out='KX', refuse=True))
        h.emit(dict(op='repair', m=name))
        if moved:
            op, old = moved
            h.emit(dict(op='move', m=name, mode=op['mode'], to={k: old[int(k)] for k in op['to']}, keepstate=True))
        if st['fresh']:
            if rng.random() < 0.8:
                h.kG(name) if rng.random() < 0.5 else h.add(name, h.mat(name, ['zeros']))
        else:
            h.k0(name)

    def deck(self, rng, plan, h, i):
        spec = plan['specs'][i]
        d = spec['deck']
        t = rng.choice(spec['tris'])
        rest = [k for k in range(len(spec['pts'])) if k not in t]
        if not rest:
            return
        n = [d['nids'][k] for k in t] + [d['nids'][rng.choice(rest)]]
        eid = rng.choice([e for e in [max(d['eids']) + 1, min(d['eids']) - 1] +
                          [x for x in range(1, max(d['eids']) % 2000 + 5) if x not in d['eids']][:3] if e > 0])
        kind = rng.choice(sorted(BAD_CARDS))
        h.emit(dict(op='redeck', spec=i, extra=BAD_CARDS[kind](eid, n), kind=kind))
        h.emit(dict(op='read', m='BAD', spec=i, refuse=True))
        h.emit(dict(op='redeck', spec=i, extra=[]))
        if rng.random() < 0.5:
            name = 'R%d' % len(h.ops)
            h.read(name, i)
            h.props(name, 'both')
            h.k0(name)

    def judge(self, plan, recs, info, ctx, where):
        extra = dict(stats=dict(refused={}, assemblies_compared=0))
        after = False
        for op, rec, req, w in self.requests(plan, recs):
            if rec.get('skip'):
                continue
            what = '%s (operation %s)' % (op['op'], rec['k'])
            if op.get('refuse'):
                kind = 'method' if op['op'] == 'add' else 'deck' if op['op'] == 'read' else 'stiffness'
                if kind == 'stiffness':
                    kind = 'edge' if op['m'] == 'OV' or self.broken(plan, rec) else 'property'
                if kind == 'edge' and op['m'] != 'OV' and not self.was_broken(plan, recs, rec):
                    continue
                extra['stats']['refused'][kind] = extra['stats']['refused'].get(kind, 0) + 1
                if rec.get('returned'):
                    return ['not refused: ' + kind, what], extra
                if rec.get('base'):
                    return ['refused with ' + rec['exc'][0], what], extra
                bad = [b for b in rec['bad'] if b in ('reg', 'input:xyz', 'input:conn', 'input:prop', 'input:lam')]
                if bad:
                    return ['refused %s changed %s' % (kind, bad[0]), what], extra
                if 'index0' in rec and rec['index'] != rec['index0']:
                    return ['refused %s changed the numbering' % kind, what], extra
                after = True
                continue
            if op['op'] == 'read' and rec['exc']:
                return ['read raised', '%s: %s' % (what, rec['exc'])], extra
            if req is not None:
                extra['stats']['assemblies_compared'] += 1
                if after:
                    extra['nontrivial'] = True
                v = self.against_solo(plan, op, rec, req, ctx, where)
                if v:
                    return ['after a refused call: ' + op['op'], '%s: %s' % (what, v)], extra
        extra.setdefault('nontrivial', False)
        return None, extra

    def broken(self, plan, rec):
        """is the previous operation on this mesh attaching a third triangle?"""
        ops = plan['tasks'][rec['t']]
        return rec['k'] > 0 and ops[rec['k'] - 1]['op'] == 'break'

    def was_broken(self, plan, recs, rec):
        prev = [r for r in recs if r['t'] == rec['t'] and r['k'] == rec['k'] - 1]
        return bool(prev) and prev[0]['op'] == 'break' and not prev[0].get('skip')


# =====================================================================================================================
FAILS = ['32', '28', '5', '9', 'ValueError', 'UnicodeEncodeError']


class C13(Check):
    id = 'C13'
    level = 'fault_enumeration'
    rule = ('A run = a history of 5-14 silent (also refused) and verbose calls on 1-2 meshes under simulated standard streams per call '
            '(recording, missing, closed, failing at the n-th write or flush with one of six errors, once or from then on, or the '
            'real descriptors closed or on a full device). Silent calls must write nothing and give the normal result; verbose ones '
            'give the normal result or raise. Non-trivial: a stream failed, was missing or was written to. Distinct: by '
            'operations with streams.')
    assumptions = ['numpy warnings about the caller\'s data are not progress messages and are not counted']
    budget = {'quick': dict(runs=560, wall=150), 'thorough': dict(runs=12000, wall=700)}

    def gen(self, rng, idx, ctx):
        plan, h = C03().history(rng, nmax=2, size=rng.choices(['tiny', None, 'grid'], weights=[69, 28, 3])[0])
        plan['conn'] = True
        names = sorted(h.m)
        n = rng.choice([5, 9, 13])
        quiet = 0.4
        if rng.random() < 0.04:             # many silent calls
            n, quiet = rng.choice([40, 80]), rng.choice([0., 0.03])
        while len(h.ops) < n + len(names):
            name = rng.choice(names)
            k = rng.choice(['k0', 'add', 'kG', 'kG', 'move', 'props', 'read', 'mid', 'print', 'refused'])
            if k == 'k0':
                h.k0(name)
            elif k == 'add':
                h.analyse(name)
                h.add(name, h.mat(name, ['zeros']))
            elif k == 'kG':
                h.analyse(name)
                h.kG(name)
            elif k == 'move' and rng.random() < 0.5:
                h.move(name)
            elif k == 'props' and rng.random() < 0.5:
                h.props(name)
            elif k == 'read' and rng.random() < 0.6:
                h.read(name, rng.randrange(len(plan['specs'])))
                h.props(name, 'both')
            elif k == 'mid':
                h.emit(dict(op='mid', m=name, e=rng.randrange(30)))
            elif k == 'print':
                h.emit(prints.gen_print(rng))
            elif k == 'refused':
                self.refused(rng, plan, h, name)
        for name in names:
            h.k0(name)
            h.kG(name)
        plan['tasks'] = [h.ops]
        for op in h.ops:
            if op['op'] in ('read', 'k0', 'add', 'kG', 'mid', 'print'):
                if op['op'] not in ('mid', 'print') and not op.get('refuse') and rng.random() < quiet:
                    op['verbose'] = True
                if rng.random() < 0.8:
                    op['streams'] = dict(stdout=self.stream(rng), stderr=self.stream(rng))
        # a failed verbose read or stiffness: the same call silently afterwards
        i = 0
        while i < len(h.ops):
            op = h.ops[i]
            if op.get('verbose') and op['op'] in ('read', 'k0') and rng.random() < 0.8:
                again = clone(op)
                again.pop('verbose')
                h.ops.insert(i + 1, again)
                if op['op'] == 'read':
                    h.ops[i + 1] = again
                i += 1
            i += 1
        for k, op in enumerate(h.ops):
            op['id'] = k
        plan['fd'] = rng.choice(['file', 'file', 'file', 'full', 'closed'])
        return plan

    def refused(self, rng, plan, h, name):
        """silent calls that must be refused"""
        ds = [i for i, s in enumerate(plan['specs']) if s['src'] == 'deck']
        r = rng.random()
        if r < 0.4 or (r > 0.7 and not ds):
            h.emit(dict(op='add', k=h.mat(name, ['zeros']), m=name, pfn=h.pfn(name), method=rng.choice(BAD_METHODS),
                        refuse=True, keep=True))
        elif r < 0.7:
            pfn = rng.random() < 0.5
            t = rng.choice(h.m[name]['spec']['tris'])
            op = dict(m=name, src='node' if pfn else 'elem', k=t[0] if pfn else h.m[name]['spec']['tris'].index(t))
            h.props(name, 'both')
            h.emit(dict(op, op='unprop'))
            h.emit(dict(op='k0', m=name, pfn=pfn, out='KX', refuse=True))
            h.emit(dict(op, op='reprop'))
        else:
            C12().deck(rng, plan, h, rng.choice(ds))

    def stream(self, rng):
        k = rng.choice(['record', 'record', 'none', 'closed', 'fail', 'fail', 'fail', 'real'])
        c = dict(kind=k)
        if k == 'fail':
            c.update(n=rng.choice([0, 0, 1, 2, 3, 5]), exc=rng.choice(FAILS), stay=rng.random() < 0.5)
        if k in ('fail', 'record') and rng.random() < 0.3:
            c['flush'] = True
        return c

    def run_in(self, plan, ctx, where):
        recs, info = ctx.fork(child_streams, plan, where)
        viol, extra = self.judge(plan, recs, info, ctx, where)
        return self.result(plan, recs, info, viol, extra)

    def judge(self, plan, recs, info, ctx, where):
        extra = dict(stats=dict(streams={}, silent_calls=0, verbose_calls=0, verbose_raised=0), nontrivial=False)
        kinds = extra['stats']['streams']
        for op, rec, req, w in self.requests(plan, recs):
            if rec.get('skip'):
                continue
            what = '%s (operation %s)' % (op['op'], rec['k'])
            log = rec.get('stream') or []
            for name, c in sorted((op.get('streams') or {}).items()):
                kinds[c['kind']] = kinds.get(c['kind'], 0) + 1
            if 'failed' in log:
                kinds['failures delivered'] = kinds.get('failures delivered', 0) + 1
            if log or op.get('streams'):
                extra['nontrivial'] = True
            if op.get('verbose'):
                extra['stats']['verbose_calls'] += 1
                if rec['exc'] is not None:
                    extra['stats']['verbose_raised'] += 1
                    c = op.get('streams')
                    healthy = c is None or all(x['kind'] in ('record', 'none') for x in c.values()) or \
                        ('failed' not in log and all(x['kind'] in ('record', 'none', 'fail') for x in c.values()))
                    if healthy and not (plan['fd'] != 'file' and c is None):
                        if req is not None or op['op'] in ('read', 'k0'):
                            return ['verbose call raised', '%s: %s' % (what, rec['exc'])], extra
                    if op['op'] == 'add':
                        continue
                    continue
            elif op['op'] in ('read', 'k0', 'add', 'kG', 'mid', 'print'):
                extra['stats']['silent_calls'] += 1
                if log:
                    return ['silent call wrote', '%s: %s' % (what, log[:3])], extra
                if op.get('refuse'):
                    if rec.get('fd'):
                        return ['silent call wrote', '%s: %d bytes to the descriptors' % (what, rec['fd'])], extra
                    extra['stats']['refused_calls'] = extra['stats'].get('refused_calls', 0) + 1
                    continue
                if rec['exc'] is not None and op['op'] in ('read', 'mid'):
                    return ['silent call raised', '%s: %s' % (what, rec['exc'])], extra
                if rec.get('fd'):
                    return ['silent call wrote', '%s: %d bytes to the descriptors' % (what, rec['fd'])], extra
            if op['op'] == 'print':
                exc, text = ctx.cached(['print', op['fn'], op['mat'], op], lambda: ctx.fork(prints.solo, op))
                if exc is None and (rec['exc'] is not None or rec['out'] != text):
                    return ['printing depends on the streams', '%s: %s' % (what, rec['exc'])], extra
            if op['op'] == 'read' and rec['exc'] is None and rec.get('conn'):
                return ['mesh', '%s: %s' % (what, rec['conn'])], extra
            if req is not None:
                v = self.against_solo(plan, op, rec, req, ctx, where)
                if v:
                    return [('verbose ' if op.get('verbose') else 'silent ') + op['op'], '%s: %s' % (what, v)], extra
        if info.get('fd_end'):
            return ['silent call wrote', '%d bytes to the descriptors' % info['fd_end']], extra
        return None, extra


def child_streams(plan, where):
    import os
    import sys
    import warnings
    warnings.resetwarnings()
    warnings.simplefilter('default')
    np.seterr(all='ignore')
    cwd = os.path.join(where, 'cwd')
    os.makedirs(cwd, exist_ok=True)
    os.chdir(cwd)
    sys.stdout.flush()
    sys.stderr.flush()
    path = None
    if plan['fd'] == 'file':
        path = os.path.join(where, 'descriptors')
        fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_APPEND)
    elif plan['fd'] == 'full':
        fd = os.open('/dev/full', os.O_WRONLY)
    for k in (1, 2):
        if plan['fd'] == 'closed':
            os.close(k)
        else:
            os.dup2(fd, k)
    it = interp.Interp(plan, where, False)

    def flushed():
        for f in (sys.stdout, sys.stderr):
            try:
                f.flush()
            except Exception:
                pass
        return os.path.getsize(path) if path else 0
    for k, op in enumerate(plan['tasks'][0]):
        n = flushed()
        rec = it.exec(op, None, 0, k)
        if path and not op.get('verbose'):
            rec['fd'] = flushed() - n
    return it.recs, dict(steps=0, switches=[], fired=[], abort=None)


ALL = (C09, C10, C11, C12, C13)
