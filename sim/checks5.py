"""Meshes created from points and triangulations."""
import numpy as np
from scipy.spatial import Delaunay

from . import gen, world
from .checks import Check
from .runner import clone

WRITABLE = ('array', 'list', 'rows', 'F', 'view', 'reverse')
EXCS = ['KeyboardInterrupt', 'MemoryError', 'InjectedError', 'InjectedBase']


class C16(Check):
    id = 'C16'
    rule = ('A run = 4-30 reads of 1-3 triangulations (clouds, grids, shells, with holes, separate parts, coincident and unused '
            'points), in one thread or 2-3 simulated threads sharing the arrays, the caller overwriting the arrays, editing and '
            'analysing meshes and reading decks in between, some reads interrupted; each mesh is compared with the triangulation '
            'when it is returned and again later. Non-trivial: at least two meshes from points were compared. Distinct: by '
            'operations, sources and schedule.')
    assumptions = ['every edge of the triangulation has one or two triangles, indices are not negative',
                   'preemption and interrupts strike between statements of meshless code']
    budget = {'quick': dict(runs=2400, wall=150), 'thorough': dict(runs=40000, wall=700)}

    # ---- generation ---------------------------------------------------------------------------------------
    def source(self, rng, ctx):
        """a specification and how its arrays are stored"""
        r = rng.random()
        if r < 0.3:
            spec = world.gen_mesh(rng, src=rng.choice(['del2', 'del3', 'tri2', 'tri3']))
        else:
            spec = self.cloud(rng)
        if rng.random() < 0.4 and spec['src'].startswith('tri'):
            self.strange(rng, spec)
        kw = dict()
        kw['as'] = rng.choice(['array', 'array', 'list', 'rows', 'F', 'view', 'reverse', 'tuple', 'readonly', 'int', 'intlist', 'f32', 'uint8'])
        if kw['as'] == 'int' or (kw['as'] == 'intlist' and rng.random() < 0.8):
            spec['pts'] = [[float(round(v*rng.choice([1, 4]))) for v in p] for p in spec['pts']]
            spec['z'] = float(round(spec['z']))
        if kw['as'] == 'uint8':
            f = rng.choice([1., 20., 50.])
            spec['pts'] = [[float(round(abs(v)*f) % 256) for v in p] for p in spec['pts']]
            spec['z'] = float(round(abs(spec['z'])) % 256)
        if kw['as'] == 'f32':
            spec['pts'] = [[float(np.float32(v)) for v in p] for p in spec['pts']]
            spec['z'] = float(np.float32(spec['z']))
        if kw['as'] in ('int', 'intlist', 'f32', 'uint8') and spec['src'].startswith('del'):
            self.fix(spec)
        if spec['src'].startswith('tri') and rng.random() < 0.6:
            kw['tas'] = rng.choice(['int64', 'int16', 'uint32', 'F', 'view', 'readonly'])
        return spec, kw

    def fix(self, spec):
        """explicit triangles where the points were changed"""
        spec['src'] = 'tri' + spec['src'][-1]

    def cloud(self, rng):
        d = rng.choice([2, 2, 3])
        n = rng.choice([3, 4, 5, 6, 8, 12, 20, 35]) if rng.random() < 0.97 else rng.choice([80, 150, 300])
        f = rng.choice([1., 1., 1., 1e-6, 1e5])
        pts = [[f*round(rng.uniform(-5, 5), 3) for _ in range(2)] for _ in range(n)]
        if rng.random() < 0.3:          # a grid, with ties
            pts = [[f*float(rng.randrange(5)), f*float(rng.randrange(5))] for _ in range(n)]
        if rng.random() < 0.2:          # coincident points
            pts.append(list(rng.choice(pts)))
        a = np.array(pts) - np.array(pts).mean(axis=0)
        if len(set(map(tuple, pts))) < 3 or np.linalg.svd(a)[1][1] < 1e-3*f:
            return self.cloud(rng)
        tris = [[int(k) for k in t] for t in Delaunay(np.array(pts)).simplices]
        src = rng.choice(['del', 'tri', 'tri']) + str(d)
        spec = dict(src=src, pts=pts, z=0. if d == 2 else rng.choice([0., 0.5, -1.25]), tris=tris)
        if src == 'tri3' and rng.random() < 0.5:
            spec['pts'] = [p + [round(rng.uniform(-1, 1), 3)] for p in pts]
        if src.startswith('tri') and rng.random() < 0.7:
            rng.shuffle(tris)
            spec['tris'] = [world.turn(t, rng.randrange(6)) for t in tris]
        return spec

    def strange(self, rng, spec):
        """holes, separate parts, unused points, other numberings"""
        r = rng.random()
        tris, pts = spec['tris'], spec['pts']
        if r < 0.3 and len(tris) > 2:
            for _ in range(rng.randrange(1, max(2, len(tris)//2))):
                tris.pop(rng.randrange(len(tris)))
        elif r < 0.5:                   # separate parts
            n = len(pts)
            spec['pts'] = pts + [[p[0] + 100.] + p[1:] for p in pts]
            spec['tris'] = tris + [[a + n, b + n, c + n] for a, b, c in tris]
            rng.shuffle(spec['tris'])
        elif r < 0.7:                   # two parts that share one point, or points on top of one another (a slit)
            t = rng.choice(tris)
            k = rng.choice(t)
            pts.append(list(pts[k]))
            t[t.index(k)] = len(pts) - 1
        else:                           # unused points, anywhere in the numbering
            for _ in range(rng.choice([1, 2, 5])):
                i = rng.randrange(len(pts) + 1)
                pts.insert(i, [v + 0.5 for v in rng.choice(pts)])
                spec['tris'] = tris = [[k + (k >= i) for k in t] for t in tris]
        if rng.random() < 0.05:
            spec['tris'] = []

    def gen(self, rng, idx, ctx):
        plan = dict(specs=[], lams=gen.lams(rng, 1), setup=[], tasks=[], conn=True)
        forms = []
        twin = {}
        for _ in range(rng.choice([1, 1, 2, 3])):
            spec, kw = self.source(rng, ctx)
            if plan['specs'] and rng.random() < 0.4:       # the same triangulation over other points, or the reverse
                spec, kw = clone(plan['specs'][-1]), dict(forms[-1])
                if spec['src'].startswith('tri'):
                    twin[len(forms)] = twin.get(len(forms) - 1, len(forms) - 1)
                if rng.random() < 0.5:
                    self.fix(spec)
                    spec['pts'] = [[float(np.float32(v + 1.)) if kw['as'] == 'f32' else v + 1. for v in p] for p in spec['pts']]
                else:
                    self.fix(spec)
                    spec['tris'] = [world.turn(t, rng.randrange(6)) for t in spec['tris'][::-1]]
            plan['specs'].append(spec)
            forms.append(kw)
        nt = 1 if rng.random() < 0.6 else rng.choice([2, 2, 3])
        npts = len(plan['specs'])
        if nt == 1 and rng.random() < 0.3:
            plan['specs'].append(world.gen_mesh(rng, src='deck', size='tiny'))
        deck = len(plan['specs']) > npts
        if nt > 1:                      # the arrays exist before the threads start
            for i in range(npts):
                plan['setup'].append(dict(op='read', m='S%d' % i, spec=i, share=True, id=i, **forms[i]))
        for t in range(nt):
            h = gen.Hist(rng, plan)
            n = rng.choice([4, 8, 16, 30]) if nt == 1 else rng.choice([1, 2, 4])
            nm = 0
            while len(h.ops) < n:
                r = rng.random()
                if not h.m or r < 0.45:
                    i = rng.randrange(npts)
                    self.read(rng, plan, h, '%d.%d' % (t, nm % 6), i, forms[i], nt == 1, twin.get(i) if nt == 1 else None)
                    nm += 1
                elif r < 0.6:
                    h.emit(dict(op='topo', m=rng.choice(sorted(h.m))))
                elif nt > 1:
                    continue
                elif r < 0.72:
                    i = rng.randrange(npts)
                    if forms[i]['as'] in WRITABLE and forms[i].get('tas') != 'readonly':
                        h.emit(dict(op='scribpts', spec=i, what=rng.choice(['points', 'points', 'simplices']),
                                    f=rng.choice([0., -2., 1.]), a=rng.choice([1e3, 0.25])))
                elif r < 0.8 and deck:
                    h.read('D', npts)
                elif r < 0.86:
                    name = rng.choice(sorted(h.m))
                    h.emit(dict(op='drop', k=name, mesh=True, gc=rng.random() < 0.6))
                    h.m.pop(name)
                elif r < 0.93:
                    name = rng.choice(sorted(h.m))
                    if h.m[name]['spec']['tris']:
                        h.props(name, 'both')
                    if rng.random() < 0.5 and 'D' in h.m:
                        h.k0('D')
                else:
                    name = rng.choice(sorted(h.m))
                    xyz = h.m[name]['xyz']
                    k = rng.randrange(len(xyz))
                    h.emit(dict(op='move', m=name, to={str(k): [v + 0.75 for v in xyz[k]]},
                                mode=rng.choice(['replace', 'inplace', 'component'])))
                    xyz[k] = [v + 0.75 for v in xyz[k]]
            for name in sorted(h.m):
                h.emit(dict(op='topo', m=name))
            for k, op in enumerate(h.ops):
                op['id'] = 100*t + k
            plan['tasks'].append(h.ops)
        plan['sched'] = dict(seed=rng.randrange(2**31))
        if nt > 1:
            plan['sched']['policy'] = dict(kind='random', p=rng.choice([0.01, 0.05, 0.2]), pnew=rng.choice([0.05, 0.2, 0.5]))
        return plan

    def read(self, rng, plan, h, name, i, form, single, twin=None):
        kw = dict(form, share=not single or rng.random() < 0.8)
        if twin is not None and form['as'] in WRITABLE and form.get('tas') != 'readonly' and rng.random() < 0.85:
            kw['arr'] = twin
        xyz = None
        if single and form['as'] in WRITABLE and rng.random() < 0.3:
            # other coordinates in the same array
            f = rng.choice([2., -1., 0.5])
            s = rng.choice([0., 1., -0.25])
            flat = plan['specs'][i]['src'][-1] == '2'
            xyz = [[v*f + s if c < 2 or not flat else 0. for c, v in enumerate(p)] for p in world.all_xyz(plan['specs'][i])]
            kw['xyz'] = xyz
        if rng.random() < 0.12:
            kw['fault'] = dict(kind=rng.choice(['line', 'line', 'call']), n=int(10**rng.uniform(0, 2.7)), exc=rng.choice(EXCS))
        if rng.random() < 0.15:
            kw['verbose'] = True
        h.read(name, i, **kw)
        if xyz:
            h.m[name]['xyz'] = [list(p) for p in xyz]
        if 'fault' in kw and rng.random() < 0.8:
            kw = dict(kw)
            kw.pop('fault')
            h.read(name, i, **kw)
            if xyz:
                h.m[name]['xyz'] = [list(p) for p in xyz]

    # ---- decision -----------------------------------------------------------------------------------------
    def judge(self, plan, recs, info, ctx, where):
        extra = dict(stats=dict(meshes_compared=0, compared_later=0), nontrivial=False)
        if info['abort']:
            return ['no progress', info['abort']], extra
        n = 0
        for r in recs:
            op = self.op_of(plan, r)
            if r.get('skip') or op['op'] not in ('read', 'topo'):
                continue
            what = '%s (operation %s of thread %s)' % (op['op'], r['k'], r['t'])
            bad = [b for b in r['bad'] if b in ('input:points', 'input:simplices', 'input:conn', 'input:xyz', 'input:prop')]
            if r.get('fired') and r.get('returned'):
                return ['fault swallowed', what], extra
            if bad:
                return [bad[0], 'after ' + what], extra
            if r.get('fired'):
                continue
            if r['exc']:
                return ['read raised', '%s: %s' % (what, r['exc'])], extra
            if op['op'] == 'read' and plan['specs'][op['spec']]['src'] == 'deck':
                continue
            if r.get('conn'):
                return ['%s: %s' % ('new mesh' if op['op'] == 'read' else 'mesh', r['conn']), 'after ' + what], extra
            if op['op'] == 'read':
                extra['stats']['meshes_compared'] += 1
                n += 1
            else:
                extra['stats']['compared_later'] += 1
        extra['nontrivial'] = n > 1
        return None, extra

    def fine(self, op):
        return op and [op.get(k) for k in ('m', 'op', 'spec', 'as', 'tas', 'fault', 'what', 'mode', 'share', 'arr', 'verbose')]

    def signature(self, plan, recs, info):
        return [Check.signature(self, plan, recs, info), [(s['src'], s['tris']) for s in plan['specs']]]




# =====================================================================================================================
def transform(plan):
    """the same history in another frame: other place, axes, unit of length and stiffness, next to another plate"""
    f = plan['frame']
    R, t, s, c = np.array(f['R']), f['t'], f['s'], f['c']
    new = clone(plan)
    ex = f.get('extra')

    def put(p):
        q = s*R.dot(np.array(p[:2], dtype=float)) + t
        return [float(q[0]), float(q[1])] + [float(s*v) for v in p[2:]]
    fr = dict(R=f['R'], s=s, c=c)
    new['lams'] = [dict(l, frame=fr) for l in plan['lams']]
    first = len(ex['pts']) if ex and ex['front'] else 0
    more = len(ex['pts']) if ex else 0
    tfirst = len(ex['tris']) if first else 0
    for spec in new['specs']:
        spec['src'] = 'tri' + spec['src'][-1]
        spec['pts'] = [put(p) for p in spec['pts']]
        spec['z'] = s*spec['z']
        if ex:
            n = len(spec['pts'])
            if first:
                spec['pts'] = ex['pts'] + spec['pts']
                spec['tris'] = ex['tris'] + [[k + first for k in tr] for tr in spec['tris']]
            else:
                spec['pts'] = spec['pts'] + ex['pts']
                spec['tris'] = spec['tris'] + [[k + n for k in tr] for tr in ex['tris']]
    for op in [o for ops in new['tasks'] for o in ops]:
        if op['op'] == 'move':
            op['to'] = {str(int(k) + first): put(p) for k, p in op['to'].items()}
        elif op['op'] == 'mutlam':
            op['to'] = dict(op['to'], frame=fr)
        elif op['op'] == 'kG':
            n = len(plan['specs'][op['spec']]['pts'])
            op['d'] = dict(op['d'], frame=dict(R=f['R'], n=n, first=first))
        elif op['op'] == 'props' and ex:
            for key, m in (('pn', ex['pts']), ('pe', ex['tris'])):
                if key in op:
                    own = [ex['lam'] % len(plan['lams'])]*len(m)
                    op[key] = own + op[key] if first else op[key] + own
    return new, first, more


class C17(Check):
    id = 'C17'
    rule = ('A run = a history of 5-14 edits, interrupted calls and analyses of 1-2 plane meshes carried out in another frame '
            '(moved, turned, mirrored, other units of length and stiffness, next to, before or on top of another plate in the same '
            'mesh); every matrix is mapped back and compared with the same analysis in the original frame, alone in a pristine '
            'process. Non-trivial: at least two matrices compared. Distinct: by operations with their arguments and frame.')
    assumptions = ['equality to 1e-8 of the largest entry of the class of degrees of freedom (2e-13 of the distance in edge lengths, if '
                   'that is more)',
                   'edge-based shear is compared only between frames that differ by units (finding F1 of C06)',
                   'shear in turned axes: quarter turns and mirror images, or equal shear stiffness in both directions; without '
                   'smoothing no mirror images (the origin of the shear gaps changes)']
    budget = {'quick': dict(runs=450, wall=150), 'thorough': dict(runs=12000, wall=700)}

    # ---- generation ---------------------------------------------------------------------------------------
    def gen(self, rng, idx, ctx):
        plan = dict(specs=[], lams=gen.lams(rng), setup=[], tasks=[])
        r = rng.random()
        size = 'tiny' if r < 0.25 else 'big' if r > 0.93 else 'grid' if r > 0.9 else None
        for _ in range(rng.choice([1, 1, 2])):
            plan['specs'].append(world.gen_mesh(rng, src=rng.choice(['del2', 'del3', 'tri2', 'tri3']), size=size))
        f = plan['frame'] = self.frame(rng, plan)
        if f['iso']:
            plan['lams'] = [self.iso(l) for l in plan['lams']]
        h = gen.Hist(rng, plan)
        names = []
        for i in range(rng.choice([1, 1, 2])):
            h.read('M%d' % i, i % len(plan['specs']))
            h.props('M%d' % i, 'both')
            names.append('M%d' % i)
        n = rng.choice([5, 8, 12])
        fault = rng.random() < 0.3
        while len(h.ops) < n + 2*len(names):
            name = rng.choice(names)
            k = rng.choice(['move', 'move', 'props', 'k0', 'add', 'add', 'add', 'kG', 'kG', 'mutlam', 'fault'])
            if k == 'move':
                h.move(name)
            elif k == 'props':
                h.props(name)
            elif k == 'mutlam' and rng.random() < 0.4:
                h.mutlam()
                if f['iso']:
                    h.ops[-1]['to'] = self.iso(h.ops[-1]['to'])
            elif k == 'k0':
                h.k0(name)
            elif k == 'add':
                h.analyse(name)
                h.add(name, h.mat(name, ['zeros']))
            elif k == 'kG':
                h.analyse(name)
                self.kG(h, name, plan)
            elif k == 'fault' and fault:
                h.k0(name)
                h.ops[-1]['fault'] = dict(kind='line', n=int(10**rng.uniform(0, 3.5)),
                                          exc=rng.choice(['KeyboardInterrupt', 'MemoryError']))
                h.m[name]['fresh'] = False
        for name in names:
            h.k0(name)
            self.kG(h, name, plan)
            h.add(name, h.mat(name, ['zeros']), method=rng.choice(world.METHODS))
        plan['tasks'] = [h.ops]
        return plan

    def kG(self, h, name, plan):
        h.kG(name)
        op = h.ops[-1]
        op.pop('dreg', None)
        op['spec'] = [i for i, s in enumerate(plan['specs']) if s is h.m[name]['spec']][0]
        if op['d']['kind'] in ('int', 'f32', 'readonly', 'column', 'view'):
            op['d']['kind'] = 'plain'

    def iso(self, l):
        p = list(l['prop'])
        p[4] = p[5] = p[3] = p[3]
        return dict(l, prop=p, k23=l['k13'])

    def frame(self, rng, plan):
        R = [[1., 0.], [0., 1.]]
        iso = False
        r = rng.random()
        if r < 0.2:
            R = rng.choice([[[0., -1.], [1., 0.]], [[-1., 0.], [0., -1.]], [[0., 1.], [-1., 0.]], [[1., 0.], [0., -1.]],
                            [[-1., 0.], [0., 1.]], [[0., 1.], [1., 0.]]])
        elif r < 0.45:
            th = rng.uniform(-3.1, 3.1)
            R = [[float(np.cos(th)), float(-np.sin(th))], [float(np.sin(th)), float(np.cos(th))]]
            iso = rng.random() < 0.7
        s = c = 1.
        if rng.random() < 0.6:
            s = rng.choice([2.**rng.randrange(-20, 21), 10.**rng.randrange(-6, 7), 25.4, 1e-3, 1e3])
        if rng.random() < 0.35:
            c = rng.choice([1e-9, 1e-6, 1e6, 1e9, 0.5, 1000.])
        t = [0., 0.]
        if rng.random() < 0.45:
            size = s*min(max(abs(v) for p in sp['pts'] for v in p) for sp in plan['specs'])
            t = [size*rng.choice([0., 1., -1., 10., -300., 1e3, -1e5, 1e6])*rng.uniform(0.5, 1.) for _ in range(2)]
        f = dict(R=R, s=s, c=c, t=t, iso=iso)
        if rng.random() < 0.35:
            o = world.gen_mesh(rng, src=rng.choice(['tri2', 'tri3']), size='tiny' if rng.random() < 0.5 else None)
            if rng.random() < 0.2:      # on top of the plate
                o = clone(plan['specs'][0])
            spec = plan['specs'][0]
            near = rng.random() < 0.5
            pts = []
            z = 1. if near else rng.choice([1., 1., 1e-4, 1e4])      # or much smaller or larger
            for p in o['pts']:
                q = z*s*np.array(p[:2])
                if near:
                    q = s*np.array(R).dot(np.array(p[:2])) + t
                pts.append([float(v) for v in q])
            f['extra'] = dict(pts=pts, tris=o['tris'], front=rng.random() < 0.5, lam=rng.randrange(4))
        return f

    # ---- execution ----------------------------------------------------------------------------------------
    def run_in(self, plan, ctx, where):
        from .checks import child_run
        new, first, more = transform(plan)
        recs, info = ctx.fork(child_run, new, where, self.local)
        viol, extra = self.judge(plan, recs, info, ctx, where, first, more)
        return self.result(plan, recs, info, viol, extra)

    # ---- decision -----------------------------------------------------------------------------------------
    def judge(self, plan, recs, info, ctx, where, first=0, more=0):
        from . import interp
        f = plan['frame']
        R = np.array(f['R'])
        extra = dict(stats=dict(matrices_compared=0), nontrivial=False)
        n = 0
        turned = abs(R[0, 0]) > 1e-3 and abs(R[0, 1]) > 1e-3
        # far away, coordinates carry fewer digits of the lengths of the edges
        le = min(np.hypot(*(np.array(sp['pts'][u[a]][:2]) - np.array(sp['pts'][u[a - 1]][:2])))
                 for sp in plan['specs'] for u in sp['tris'] for a in range(3))
        rtol = max(1e-8, 2e-13*max(abs(v) for v in f['t'])/(f['s']*le))
        for op, rec, req, w in self.requests(plan, recs):
            if op['op'] == 'read' and rec['exc']:
                return ['read raised', str(rec['exc'])], extra
            if req is None or rec.get('skip') or rec.get('fired'):
                continue
            what = '%s (operation %s)' % (op['op'] if op['op'] != 'add' else 'add ' + op['method'], rec['k'])
            cls = 'frame: ' + (op['op'] if op['op'] != 'add' else op['method'])
            if rec['exc'] is not None:
                return ['raised in ' + op['op'], '%s raised %s: %s' % (what, rec['exc'][0], rec['exc'][1])], extra
            if rec['out'] is None:
                return ['no matrix', what], extra
            s = np.ones(5)
            if op['op'] == 'add':
                s[3:] = f['s']
                if op['method'] == 'edge-based' and not (np.array_equal(R, np.eye(2)) and not any(f['t'])):
                    continue
                if turned and not f['iso']:
                    continue
                if np.linalg.det(R) < 0 and op['method'] == 'cell-based-no-smoothing':
                    continue        # depends on which node of a triangle is the origin of the shear gaps
            exc, want, _ = self.solo(plan, req, ctx, where)
            if exc is not None:
                return ['raised in ' + op['op'], 'the original frame raised %s' % exc], extra
            out = rec['out']
            m = len(want)
            own = slice(5*first, 5*first + m)
            if out.shape != (m + 5*more,)*2:
                return [cls, '%s has shape %s' % (what, out.shape)], extra
            if out[own, :5*first].any() or out[own, 5*first + m:].any() or out[:5*first, own].any() or out[5*first + m:, own].any():
                return ['plates coupled', what], extra
            P = np.zeros((5, 5))
            P[:2, :2] = P[3:, 3:] = R
            P[2, 2] = 1
            P = P/s[:, None]**1
            # out = c S P0 want P0^T S  ->  want = (P0^T S^-1) out (S^-1 P0)/c
            c = f['c']/(f['s'] if op['op'] == 'kG' else 1.)
            k = out[own, own].reshape(m//5, 5, m//5, 5)
            back = np.einsum('ai,xayb,bj->xiyj', P, k, P).reshape(m, m)/c
            v = interp.differ(back, want, rtol=rtol)
            if v:
                return [cls, '%s: mapped back, %s' % (what, v)], extra
            n += 1
        extra['stats']['matrices_compared'] = n
        extra['nontrivial'] = n > 1
        return None, extra

    def shrinks(self, plan):
        f = plan['frame']
        for key, v in (('extra', None), ('t', [0., 0.]), ('c', 1.), ('s', 1.), ('R', [[1., 0.], [0., 1.]])):
            if f.get(key) not in (None, v):
                p = clone(plan)
                p['frame'][key] = v
                if key != 's' or not any(f['t']):
                    yield p
        for p in Check.shrinks(self, plan):
            yield p

    def signature(self, plan, recs, info):
        return [Check.signature(self, plan, recs, info), plan['frame']]


ALL = (C16, C17)
