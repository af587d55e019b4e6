"""Generation of histories (plain data)."""
import numpy as np

from . import world
from .world import METHODS


def lams(rng, n=None):
    n = n or rng.choice([1, 2, 3, 4])
    out = [world.gen_lam(rng)]
    while len(out) < n:
        out.append(world.gen_lam(rng) if rng.random() < 0.7 else world.vary_lam(rng, rng.choice(out)))
    return out


def gen_props(rng, plan, m, spec, cur=None, src=None):
    nl = len(plan['lams'])
    nn, ne = len(world.all_nids(spec)), len(spec['tris'])
    src = src or rng.choice(['both', 'both', 'node', 'elem'])
    op = dict(op='props', m=m, src=src)

    def pick(n, old):
        r = rng.random()
        if old is not None and None not in old and r < 0.3:         # change a single entry
            new = list(old)
            new[rng.randrange(n)] = rng.randrange(nl)
            return new
        if old is not None and None not in old and r < 0.45 and n > 1:   # exchange two
            new = list(old)
            i, j = rng.sample(range(n), 2)
            new[i], new[j] = new[j], new[i]
            return new
        if r < 0.65:
            return [rng.randrange(nl)]*n
        return [rng.randrange(nl) for _ in range(n)]
    if src in ('node', 'both'):
        op['pn'] = pick(nn, cur and cur.get('pn'))
    if src in ('elem', 'both'):
        op['pe'] = pick(ne, cur and cur.get('pe'))
    return op


def valid(tris, xyz, ref):
    """no slivers, and all triangles keep (or all change) the sense of rotation they have in ref"""
    p = [q[:2] for q in xyz]
    if not all(world._angle_ok(p, t, 0.12) for t in tris):
        return False
    return len(set(_sign(p, t)*_sign(ref, t) for t in tris)) == 1


def _sign(p, t):
    a, b, c = (p[i] for i in t)
    return np.sign((b[0] - a[0])*(c[1] - a[1]) - (c[0] - a[0])*(b[1] - a[1]))


def gen_move(rng, m, spec, xyz, orig):
    """a move keeping the mesh valid: {'to': {node: xyz}}; xyz: current coordinates per node position"""
    tris = spec['tris']
    used = sorted(set(k for t in tris for k in t))
    size = max(max(abs(xyz[a][c] - xyz[b][c]) for a in used for b in used) for c in (0, 1))
    for _ in range(30):
        kind = rng.choice(['some', 'some', 'one', 'all', 'shift', 'scale', 'opposite', 'tiny', 'mirror', 'back', 'swap', 'z',
                           'component'])
        new = [list(p) for p in xyz]
        h = 0.12*size/max(1, len(used)**0.5 - 1)
        if kind in ('some', 'one', 'all', 'tiny', 'component'):
            ks = used if kind == 'all' else [rng.choice(used)] if kind in ('one', 'component', 'tiny') else \
                rng.sample(used, rng.randint(1, min(3, len(used))))
            f = 2e-4 if kind == 'tiny' else 1.
            for k in ks:
                cs = (0, 1) if kind != 'component' else (rng.choice([0, 1]),)
                for c in cs:
                    new[k][c] += f*h*(rng.random() - 0.5)*2
        elif kind == 'shift':
            dx, dy = rng.uniform(-2, 2)*size, rng.uniform(-2, 2)*size
            for p in new:
                p[0] += dx
                p[1] += dy
        elif kind == 'scale':
            f = rng.choice([0.5, 2., 1.37])
            for p in new:
                p[0] *= f
                p[1] *= f
        elif kind == 'opposite' and len(used) > 1:
            i, j = rng.sample(used, 2)
            dx, dy = h*rng.uniform(-1, 1), h*rng.uniform(-1, 1)
            new[i][0] += dx
            new[j][0] -= dx
            new[i][1] += dy
            new[j][1] -= dy
        elif kind == 'mirror':
            for p in new:
                p[0] = -p[0]
        elif kind == 'back':
            new = [list(p) for p in orig]
        elif kind == 'swap':
            i, j = rng.sample(used, 2)
            new[i], new[j] = list(new[j]), list(new[i])
        elif kind == 'z':
            dz = rng.choice([0.7, -1.5, 3.])
            for p in new:
                p[2] += dz
        if new == xyz:
            continue
        if not valid(tris, new, orig):
            continue
        to = {str(k): new[k] for k in range(len(new)) if new[k] != xyz[k]}
        return dict(op='move', m=m, mode=rng.choice(['replace', 'inplace', 'component']), to=to, kind=kind), new
    return None, xyz


def gen_add(rng, k, m):
    op = dict(op='add', k=k, m=m, pfn=rng.random() < 0.5, method=rng.choice(METHODS))
    if rng.random() < 0.85:
        op['alpha'] = rng.choice([0.08, 0.2, 0.6, 0.01, 0.])
    if rng.random() < 0.3:
        op['mfa'] = True
    return op


def gen_d(rng):
    return dict(seed=rng.randrange(2**31), scale=rng.choice([1., 1e-3, 10.]),
                kind=rng.choice(['plain', 'plain', 'plain', 'view', 'column', 'inplane', 'inplane', 'mixed', 'mixed', 'zero', 'one', 'int',
                                 'f32', 'readonly']))


class Hist(object):
    """builds a history while tracking what is needed to keep it meaningful"""

    def __init__(self, rng, plan):
        self.rng = rng
        self.plan = plan
        self.ops = []
        self.m = {}
        self.nk = 0
        self.mats = {}
        self.vecs = {}
        self.lam = {}
        self.last = None

    def emit(self, op):
        op['id'] = len(self.ops)
        self.ops.append(op)
        return op

    def read(self, name, si, **kw):
        spec = self.plan['specs'][si]
        self.emit(dict(op='read', m=name, spec=si, **kw))
        xyz = world.all_xyz(spec)
        self.m[name] = dict(spec=spec, xyz=xyz, orig=[list(p) for p in xyz], pn=None, pe=None, fresh=False)

    def props(self, name, src=None):
        st = self.m[name]
        op = gen_props(self.rng, self.plan, name, st['spec'], st, src)
        if 'pn' in op:
            st['pn'] = op['pn']
        if 'pe' in op:
            st['pe'] = op['pe']
        st['fresh'] = False
        self.emit(op)

    def move(self, name):
        st = self.m[name]
        op, st['xyz'] = gen_move(self.rng, name, st['spec'], st['xyz'], st['orig'])
        if op:
            st['fresh'] = False
            self.emit(op)

    def pfn(self, name):
        st = self.m[name]
        c = [b for b, p in ((True, st['pn']), (False, st['pe'])) if p is not None]
        return self.rng.choice(c) if c else None

    def k0(self, name, **kw):
        p = self.pfn(name)
        if p is None:
            self.props(name)
            p = self.pfn(name)
        out = 'K%d' % self.nk
        self.nk += 1
        self.emit(dict(op='k0', m=name, pfn=p, out=out, **kw))
        self.m[name]['fresh'] = True
        self.mats[out] = name
        return out

    def mat(self, name, kinds=None):
        from .interp import MAT_KINDS
        out = 'K%d' % self.nk
        self.nk += 1
        self.emit(dict(op='mat', m=name, kind=self.rng.choice(kinds or MAT_KINDS), seed=self.rng.randrange(2**31), out=out))
        self.mats[out] = name
        return out

    def add(self, name, k=None, **kw):
        p = self.pfn(name)
        if p is None:
            return
        if k is None:
            own = [x for x, n in self.mats.items() if self.size(n) == self.size(name)]
            k = self.rng.choice(own) if own and self.rng.random() < 0.7 else self.mat(name)
        op = gen_add(self.rng, k, name)
        if self.last and self.rng.random() < 0.5:           # with the parameters of the call before
            op = dict({x: v for x, v in op.items() if x not in ('alpha', 'mfa')}, **self.last)
        self.last = {x: op[x] for x in ('method', 'alpha', 'mfa') if x in op}
        op['pfn'] = p
        op.update(kw)
        self.emit(op)
        return k

    def size(self, name):
        return len(self.m[name]['xyz'])

    def kG(self, name, **kw):
        p = self.pfn(name)
        if p is None:
            return
        out = 'K%d' % self.nk
        self.nk += 1
        op = dict(op='kG', m=name, pfn=p, d=gen_d(self.rng), out=out, **kw)
        if self.rng.random() < 0.5:
            op['dreg'] = self.rng.choice(['d0', 'd1'])
            self.vecs[op['dreg']] = True
            if op['d']['kind'] in ('int', 'f32', 'readonly'):
                op['d']['kind'] = 'plain'
        self.emit(op)
        self.mats[out] = name
        return out

    def mutlam(self):
        i = self.rng.randrange(len(self.plan['lams']))
        to = world.gen_lam(self.rng) if self.rng.random() < 0.4 else world.vary_lam(self.rng, self.lam.get(i, self.plan['lams'][i]))
        self.lam[i] = to
        self.emit(dict(op='mutlam', lam=i, to=to))
        for st in self.m.values():
            st['fresh'] = False

    def scribble(self, k=None):
        if k is None and not self.mats:
            return
        self.emit(dict(op='scribble', k=k or self.rng.choice(sorted(self.mats)), seed=self.rng.randrange(2**31),
                       kind=self.rng.choice(['bc', 'scale', 'nan', 'zero', 'noise'])))

    def scribd(self):
        if self.vecs:
            self.emit(dict(op='scribd', d=self.rng.choice(sorted(self.vecs)), seed=self.rng.randrange(2**31),
                           kind=self.rng.choice(['zero', 'scale', 'new'])))

    def drop(self, what=None):
        if self.mats:
            k = what or self.rng.choice(sorted(self.mats))
            self.mats.pop(k, None)
            self.emit(dict(op='drop', k=k, gc=self.rng.random() < 0.3))

    def analyse(self, name):
        """assembly of everything needed by the next call"""
        if not self.m[name]['fresh']:
            return self.k0(name)
