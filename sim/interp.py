"""Interpreter of histories: executes the operations of a plan against the code under test, keeping shadow copies of
everything the caller owns. Runs inside the process of one simulated execution."""
import io
import os
import sys

import numpy as np

from . import engine, helpers, world
from .world import METHODS


class Skip(Exception):
    pass


def vector(v, ndof):
    """displacement vector of a plan: seeded, with its memory layout"""
    f = v.get('frame')
    if f:                               # the same displacements in another frame, in a mesh with more nodes
        d = np.array(vector({k: w for k, w in v.items() if k != 'frame'}, 5*f['n']), dtype=float).reshape(-1, 5)
        R = np.array(f['R'])
        d = np.hstack([d[:, :2].dot(R.T), d[:, 2:3], d[:, 3:].dot(R.T)]).reshape(-1)
        out = vector(dict(seed=v['seed'] + 1), ndof)
        out[5*f['first']:5*(f['first'] + f['n'])] = d
        return out
    r = np.random.RandomState(v['seed'] % (2**31))
    d = (r.rand(ndof) - 0.5)*v.get('scale', 1.)
    if v.get('kind') == 'inplane':
        d = d.reshape(-1, 5)
        d[:, 2:] = 0
        d = d.reshape(-1)
    if v.get('kind') in ('mixed', 'odd'):
        d[r.rand(ndof) < 0.2] = 0.
        d[r.rand(ndof) < 0.1] = -0.
        d[r.rand(ndof) < 0.1] = 1e-300
        d[r.rand(ndof) < 0.1] *= 1e-13
    if v.get('kind') == 'odd':
        d[r.rand(ndof) < 0.1] = np.nan
        d[r.rand(ndof) < 0.05] = np.inf
    if v.get('kind') == 'zero':
        d[:] = 0.
    if v.get('kind') == 'one':
        d[np.arange(ndof) != r.randint(ndof)] = 0.
    if v.get('kind') == 'int':
        return np.rint(d*100/v.get('scale', 1.)).astype(int)
    if v.get('kind') == 'f32':
        return d.astype(np.float32)
    if v.get('kind') == 'readonly':
        d = d.copy()
        d.flags.writeable = False
        return d
    if v.get('kind') == 'column':      # a column of an array of eigenvectors
        b = np.zeros((ndof, 3))
        b[:, 1] = d
        return b[:, 1]
    if v.get('kind') == 'view':
        b = np.zeros(2*ndof + 1)
        b[1::2] = d
        return b[1::2]
    return d.copy()


def matrix(kind, ndof, seed):
    """(array to pass, root array)"""
    r = np.random.RandomState(seed % (2**31))
    val = (r.rand(ndof, ndof) - 0.5)*10.**r.randint(-2, 4)
    if kind == 'zeros':
        a = np.zeros((ndof, ndof))
        return a, a
    if kind == 'rand':
        return val, val
    if kind == 'F':
        a = np.asfortranarray(val)
        return a, a
    if kind in ('odd', 'nonfin'):       # values that only survive if untouched
        a = val
        if kind == 'nonfin':
            a.flat[::19] = np.nan
            a.flat[3::23] = np.inf
            a.flat[4::29] = -np.inf
            a.flat[5::17] *= 1e200
        a.flat[::7] = -0.0
        a.flat[1::11] = 5e-324
        a.flat[2::13] = 0.
        return a, a
    root = (r.rand(2*ndof + 6, 2*ndof + 7) - 0.5)*100
    if kind == 'view':
        a = root[3:3 + ndof, 5:5 + ndof]
    elif kind == 'stride':
        a = root[0:2*ndof:2, 1:2*ndof + 1:2]
    elif kind == 'rev':
        a = root[ndof + 1:1:-1, ndof + 2:2:-1]
    elif kind == 'T':
        a = root[2:2 + ndof, 2:2 + ndof].T
    elif kind in ('FT', 'whole'):               # all of another array
        root = np.zeros((ndof, ndof))
        a = root.T if kind == 'FT' else root[:]
    elif kind == 'slab':
        root = (r.rand(ndof, 3, ndof) - 0.5)*100
        a = root[:, 1, :]
    else:
        raise Skip(kind)
    a[...] = val
    return a, root


MAT_KINDS = ('zeros', 'rand', 'F', 'odd', 'view', 'stride', 'rev', 'T', 'slab', 'FT', 'whole')


def coupled_mask(ndof, orphan_rows=()):
    """entries coupling w, phix, phiy"""
    dof = np.arange(ndof) % 5
    m = (dof >= 2)[:, None] & (dof >= 2)[None, :]
    for k in orphan_rows:
        m[5*k:5*k+5, :] = False
        m[:, 5*k:5*k+5] = False
    return m


class SimStream(object):
    """Simulated output stream: counts, and fails from the n-th write on (or only there)."""
    encoding = 'utf-8'
    errors = 'strict'

    def __init__(self, conf, log):
        self.conf = conf
        self.log = log
        self.n = 0

    def _act(self, what):
        self.log.append(what)
        c = self.conf
        i = self.n
        self.n += 1
        if c['kind'] == 'fail' and (i >= c['n'] if c.get('stay') else i == c['n']):
            self.log.append('failed')
            e = c['exc']
            if e == 'ValueError':
                raise ValueError('I/O operation on closed file.')
            if e == 'UnicodeEncodeError':
                raise UnicodeEncodeError('ascii', 'x', 0, 1, 'ordinal not in range')
            raise OSError(int(e), os.strerror(int(e)))

    def write(self, text):
        self._act('write')
        return len(text)

    def flush(self):
        if self.conf.get('flush'):
            self._act('flush')

    def writelines(self, lines):
        for l in lines:
            self.write(l)

    def isatty(self):
        return False

    def writable(self):
        return True

    def fileno(self):
        raise io.UnsupportedOperation('fileno')


def make_stream(conf, log):
    if conf['kind'] == 'none':
        return None
    if conf['kind'] == 'closed':
        f = io.StringIO()
        f.close()
        return f
    if conf['kind'] == 'real':
        return False
    return SimStream(conf, log)


class Streams(object):
    """replaces the standard streams during one call"""

    def __init__(self, conf):
        self.log = []
        self.conf = conf

    def __enter__(self):
        self.save = (sys.stdout, sys.stderr)
        for name in ('stdout', 'stderr'):
            f = make_stream(self.conf[name], self.log)
            if f is not False:
                setattr(sys, name, f)
        return self

    def __exit__(self, *a):
        sys.stdout, sys.stderr = self.save


class MeshReg(object):
    def __init__(self, mesh, spec, si):
        self.mesh = mesh
        self.spec = spec
        self.si = si
        nids = world.all_nids(spec)
        self.nids = list(mesh.nodes)
        self.eids = list(mesh.elements)
        self.by_pos = {k: mesh.nodes[n] for k, n in enumerate(nids)}
        self.el_by_pos = {k: mesh.elements[e] for k, e in enumerate(world.eids_of(spec))}
        self.xyz = {k: list(map(float, n.xyz)) for k, n in self.by_pos.items()}
        self.pn = {k: n.prop for k, n in self.by_pos.items()}
        self.pe = {k: e.prop for k, e in self.el_by_pos.items()}
        self.conn = self.connectivity()
        self.n = len(self.nids)
        used = set(k for t in spec['tris'] for k in t)
        pos_of = {n: k for k, n in enumerate(nids)}
        self.orphans = [k for k, n in enumerate(self.nids) if pos_of.get(n) not in used]

    def connectivity(self):
        m = self.mesh
        return ([(k, n.nid) for k, n in m.nodes.items()],
                [(k, e.eid, tuple(n.nid for n in e.nodes), tuple(e.node_ids)) for k, e in m.elements.items()],
                sorted((tuple(k), e.n1.nid, e.n2.nid, tuple(t.eid for t in e.trias)) for k, e in m.edges.items()))

    def check_inputs(self):
        bad = []
        for k, n in self.by_pos.items():
            try:
                ok = [float(v) for v in n.xyz] == self.xyz[k]
            except Exception:
                ok = False
            if not ok:
                bad.append('input:xyz')
                break
        for d, objs in ((self.pn, self.by_pos), (self.pe, self.el_by_pos)):
            for k, o in objs.items():
                if o.prop is not d[k]:
                    bad.append('input:prop')
                    break
        try:
            if self.connectivity() != self.conn:
                bad.append('input:conn')
        except Exception:
            bad.append('input:conn')
        return bad

    def index(self):
        out = []
        for n in self.mesh.nodes.values():
            try:
                out.append(int(n.index))
            except Exception:
                out.append(None)
        return out


class Interp(object):
    def __init__(self, plan, where, local=True):
        self.plan = plan
        self.where = where
        self.meshes = {}
        self.mats = {}
        self.vecs = {}
        self.lams = [world.make_lam(s) for s in plan.get('lams', [])]
        self.lamv = [world.lam_values(l) for l in self.lams]
        self.local = local
        self.recs = []
        self.arrays = {}
        self.array_shadow = {}
        self.saved = {}
        self.pool = None
        self.single = len(plan['tasks']) == 1
        self.given = {r: helpers.build(a['vals'], a['as']) for r, a in plan.get('args', {}).items()}
        self.frozen = {r: helpers.freeze(a) for r, a in self.given.items()}
        self.results = {}

    # ---- one operation -----------------------------------------------------------------------------------
    def exec(self, op, sim=None, t=0, k=0):
        rec = dict(t=t, k=k, op=op['op'], exc=None, out=None, bad=[])
        fault = op.get('fault')
        fn = getattr(self, 'op_' + op['op'])
        self.touched = set()
        armed = False
        try:
            args = self.prepare(op)
            if sim is not None:
                sim.begin(t, op.get('id', k))
                if sim.record_points:
                    sim.points[t] = rec['points'] = []
                if fault:
                    sim.arm(t, fault['kind'], fault['n'], fault['exc'])
                    armed = True
            if op.get('refuse') and op.get('m') in self.meshes:
                rec['index0'] = self.meshes[op['m']].index()
            try:
                if op.get('streams'):
                    with Streams(op['streams']) as st:
                        rec['stream'] = st.log
                        res = fn(op, *args)
                else:
                    res = fn(op, *args)
            finally:
                if sim is not None:
                    sim.points.pop(t, None)
                    if armed:
                        rec['fired'] = sim.disarm(t)
            rec['returned'] = True
            rec['out'] = self.finish(op, res, rec)
        except Skip:
            rec['skip'] = True
        except engine.TaskKilled:
            raise
        except BaseException as e:
            rec['exc'] = [type(e).__name__, str(e)[:200]]
            if not isinstance(e, Exception):
                rec['base'] = True
            self.failed(op, rec)
        if 'index0' in rec:
            rec['index'] = self.meshes[op['m']].index() if op['m'] in self.meshes else None
        self.recs.append(rec)
        if armed and rec.get('fired') and rec.get('returned'):
            rec['bad'].append('swallowed')
        if self.local:
            rec['bad'] += self.check_all(rec)
        return rec

    def prepare(self, op):
        o = op['op']
        if o == 'read':
            spec = self.plan['specs'][op['spec']]
            if spec['src'] == 'deck':
                return [os.path.join('..' if op.get('rel') else self.where, 'spec%d' % op['spec'], 'main.bdf'), None]
            key = op.get('arr', op['spec'])           # the arrays of another source of the same size
            if not (op.get('share') and key in self.arrays):
                pts, tri = world.points_and_tri(spec)
                if op.get('tas'):
                    tri.simplices = as_simplices(tri.simplices, op['tas'])
                self.arrays[key] = (as_kind(pts, op.get('as')), tri)
            pts, tri = self.arrays[key]
            xyz = op.get('xyz') or world.all_xyz(spec)
            for k in range(len(xyz)):                 # (re)written by the caller, in place
                for c in range(len(pts[k])):
                    if pts[k][c] != xyz[k][c]:
                        pts[k][c] = xyz[k][c]
            for k, t in enumerate(spec['tris']):
                if list(tri.simplices[k]) != t:
                    tri.simplices[k] = t
            self.array_shadow[key] = (np.array(pts, dtype=float), np.array(tri.simplices))
            return [pts, tri]
        if o in ('k0', 'add', 'kG', 'move', 'props', 'mid', 'emid', 'topo', 'mat', 'break', 'repair', 'unprop', 'reprop'):
            if op['m'] not in self.meshes:
                raise Skip()
        if o in ('add', 'scribble'):
            if op['k'] not in self.mats:
                raise Skip()
        if o == 'add' and self.mats[op['k']]['arr'].shape[0] != 5*self.meshes[op['m']].n:
            raise Skip()
        if o == 'kG':
            m = self.meshes[op['m']]
            if 'dreg' in op:
                v = self.vecs.get(op['dreg'])
                if v is None or len(v['arr']) != 5*m.n:
                    v = None
            else:
                v = None
            if v is None:
                d = vector(op['d'], 5*m.n)
                v = dict(arr=d, shadow=d.copy())
                if 'dreg' in op:
                    self.vecs[op['dreg']] = v
            self.cur_d = v
            return [v['arr']]
        if o == 'help':
            return [[self.given[r] for r in op['a']]]
        if o == 'print':
            from . import prints
            return [prints.build(op, self)]
        if o == 'scribpts' and op['spec'] not in self.arrays:
            raise Skip()
        return []

    # each op_* does only the call of the code under test (or of the caller), finish() does the bookkeeping
    def op_read(self, op, a, tri):
        from meshless.espim.read_mesh import read_mesh, read_delaunay
        kw = dict(silent=False) if op.get('verbose') else {}
        if tri is None:
            return read_mesh(a, **kw)
        return read_delaunay(a, tri, **kw)

    def op_k0(self, op):
        from meshless.espim.plate2d_calc_k0 import calc_k0
        kw = dict(silent=False) if op.get('verbose') else {}
        return calc_k0(self.meshes[op['m']].mesh, op['pfn'], **kw)

    def op_add(self, op):
        from meshless.espim.plate2d_add_k0s import add_k0s
        kw = {}
        if 'alpha' in op:
            kw['alpha'] = op['alpha']
        if op.get('mfa'):
            kw['maxl_from_area'] = True
        k = self.mats[op['k']]['arr']
        if self.local:
            self.before = k.copy()
        if op.get('verbose'):
            import importlib
            mod = importlib.import_module('meshless.espim.plate2d_add_k0s_' + op['method'].replace('-', '_'))
            return mod.add_k0s(k, self.meshes[op['m']].mesh, op['pfn'], alpha=kw.get('alpha', 0.08),
                               maxl_from_area=kw.get('maxl_from_area', False), silent=False)
        return add_k0s(k, self.meshes[op['m']].mesh, op['pfn'], op['method'], **kw)

    def op_kG(self, op, d):
        from meshless.espim.plate2d_calc_kG import calc_kG
        kw = dict(silent=False) if op.get('verbose') else {}
        return calc_kG(d, self.meshes[op['m']].mesh, op['pfn'], **kw)

    def op_mid(self, op):
        e = list(self.meshes[op['m']].mesh.edges.values())
        return e[op['e'] % len(e)].getMid()

    def op_emid(self, op):
        from meshless.utils import getMid
        return getMid(self.meshes[op['m']].el_by_pos[op['e']])

    def op_help(self, op, args):
        import meshless.interpolate as i
        import meshless.utils as u
        if op['fn'] == 'lag2':
            return i.interpolate_lagrange_2D(*args)
        if op['fn'] == 'lag3':
            return i.interpolate_lagrange_3D(*args)
        if op['fn'] == 'area':
            return u.area_of_polygon(*args)
        return u.unitvec(*args)

    def op_setarg(self, op):
        """the caller overwrites or replaces an argument of later calls"""
        r = op['r']
        kind = self.plan['args'][r]['as']
        if op.get('new'):
            self.given[r] = None
            self.given[r] = helpers.build(op['to'], kind)
        else:
            self.given[r] = helpers.assign(self.given[r], op['to'], kind)
        self.frozen[r] = helpers.freeze(self.given[r])

    def op_scribres(self, op):
        """the caller overwrites a result"""
        k = self.results.get(op['r'])
        if k is None or not isinstance(k[0], np.ndarray) or not k[0].flags.writeable:
            raise Skip()
        k[0][...] = op['v']
        k[1] = helpers.freeze(k[0])

    def helped(self, op, rec):
        """after a call of a helper: its arguments and all earlier results of the thread are untouched"""
        for r in op.get('a', ()):
            if helpers.freeze(self.given[r]) != self.frozen[r]:
                rec['bad'].append('argument')
        for r, k in self.results.items():
            if r.split('.')[0] == str(rec['t']) and helpers.freeze(k[0]) != k[1]:
                rec['bad'].append('earlier result')

    def keep_result(self, op, res, rec):
        self.helped(op, rec)
        if isinstance(res, np.ndarray):
            for o in list(self.given.values()) + [k[0] for r, k in self.results.items()
                                                  if r.split('.')[0] == str(rec['t']) and r != op['out']]:
                if isinstance(o, np.ndarray) and np.may_share_memory(o, res) and np.shares_memory(o, res):
                    rec['bad'].append('shared result')
            if op['op'] in ('mid', 'emid') and self.local:
                for n in self.meshes[op['m']].mesh.nodes.values():
                    if np.may_share_memory(n.xyz, res) and np.shares_memory(n.xyz, res):
                        rec['bad'].append('shared result')
        self.results[op['out']] = [res, helpers.freeze(res)]
        return np.array(res)

    def op_print(self, op, call):
        return call()

    # caller's own actions
    def op_props(self, op):
        m = self.meshes[op['m']]
        if op['src'] in ('node', 'both'):
            for k, n in m.by_pos.items():
                if k >= len(op['pn']):
                    continue
                i = op['pn'][k]
                n.prop = m.pn[k] = None if i is None else self.lams[i]
        if op['src'] in ('elem', 'both'):
            for k, e in m.el_by_pos.items():
                i = op['pe'][k]
                e.prop = m.pe[k] = None if i is None else self.lams[i]

    def op_mutlam(self, op):
        world.update_lam(self.lams[op['lam']], op['to'])
        self.lamv[op['lam']] = world.lam_values(self.lams[op['lam']])

    def op_move(self, op):
        m = self.meshes[op['m']]
        for k, p in op['to'].items():
            k = int(k)
            if k not in m.by_pos:
                continue
            n = m.by_pos[k]
            if op['mode'] == 'replace':
                n.xyz = np.array(p, dtype=float)
            elif op['mode'] == 'inplace':
                n.xyz[...] = p
            else:
                for c in range(3):
                    n.xyz[c] = p[c]
            m.xyz[k] = [float(v) for v in p]

    def op_scribpts(self, op):
        """the caller overwrites the arrays a mesh was made from"""
        pts, tri = self.arrays[op['spec']]
        if op['what'] == 'points':
            for k in range(len(pts)):
                for c in range(len(pts[k])):
                    pts[k][c] = pts[k][c]*op['f'] + op['a']
        else:
            new = np.roll(np.array(tri.simplices), 1, axis=0)
            for k in range(len(new)):
                tri.simplices[k] = new[k].tolist()
        self.array_shadow[op['spec']] = (np.array(pts, dtype=float), np.array(tri.simplices))

    def op_redeck(self, op):
        """the caller rewrites a deck"""
        spec = self.plan['specs'][op['spec']]
        where = os.path.join(self.where, 'spec%d' % op['spec'])
        for f in os.listdir(where):
            os.unlink(os.path.join(where, f))
        world.write_deck(spec, where, op.get('extra') or ())

    def op_topo(self, op):
        pass

    def op_unprop(self, op):
        m = self.meshes[op['m']]
        objs, shadow = (m.by_pos, m.pn) if op['src'] == 'node' else (m.el_by_pos, m.pe)
        o = objs[op['k']]
        self.saved[(op['m'], op['src'], op['k'])] = o.prop
        o.prop = shadow[op['k']] = None

    def op_reprop(self, op):
        m = self.meshes[op['m']]
        objs, shadow = (m.by_pos, m.pn) if op['src'] == 'node' else (m.el_by_pos, m.pe)
        key = (op['m'], op['src'], op['k'])
        if key not in self.saved:
            raise Skip()
        objs[op['k']].prop = shadow[op['k']] = self.saved.pop(key)

    def op_break(self, op):
        """a third triangle is attached to an edge"""
        m = self.meshes[op['m']]
        keys = sorted(m.mesh.edges)
        e = m.mesh.edges[keys[op['e'] % len(keys)]]
        other = [t for t in m.mesh.elements.values() if all(t is not x for x in e.trias)] + list(e.trias)*2
        self.saved[(op['m'], 'edge')] = (e, list(e.trias))
        e.trias = list(e.trias) + other[:3 - len(e.trias)]
        m.conn = m.connectivity()

    def op_repair(self, op):
        if (op['m'], 'edge') not in self.saved:
            raise Skip()
        m = self.meshes[op['m']]
        e, trias = self.saved.pop((op['m'], 'edge'))
        e.trias = trias
        m.conn = m.connectivity()

    def op_edit(self, op):
        """the caller changes an entry of a matrix that was or will be printed"""
        from . import prints
        prints.edit(self.get_pool(), op)

    def get_pool(self):
        if self.pool is None:
            from . import prints
            self.pool = prints.Pool(self.plan['pool'])
        return self.pool

    def op_mat(self, op):
        m = self.meshes[op['m']]
        a, root = matrix(op['kind'], 5*m.n, op['seed'])
        self.mats[op['out']] = dict(arr=a, shadow=a.copy(), root=root, root_shadow=root.copy())
        return 5*m.n

    def op_scribble(self, op):
        k = self.mats[op['k']]
        a = k['arr']
        n = a.shape[0]
        r = np.random.RandomState(op['seed'] % (2**31))
        kind = op['kind']
        if kind == 'bc':
            for i in r.choice(n, size=max(1, n//4), replace=False):
                a[i, :] = 0
                a[:, i] = 0
        elif kind == 'scale':
            a *= -3.5
        elif kind == 'nan':
            a[...] = np.nan
        elif kind == 'zero':
            a[...] = 0
        else:
            a += r.rand(n, n)*(1 + abs(a).max())
        k['shadow'] = a.copy()
        if k['root'] is not None:
            k['root_shadow'] = k['root'].copy()

    def op_scribd(self, op):
        v = self.vecs.get(op['d'])
        if v is None:
            raise Skip()
        if op['kind'] == 'zero':
            v['arr'][...] = 0
        elif op['kind'] == 'scale':
            v['arr'] *= 2.5
        else:
            v['arr'][...] = vector(dict(seed=op['seed']), len(v['arr']))
        v['shadow'] = v['arr'].copy()

    def op_drop(self, op):
        """the caller forgets an object (its memory and id can be reused)"""
        self.mats.pop(op['k'], None)
        self.vecs.pop(op['k'], None)
        if op.get('mesh'):
            self.meshes.pop(op['k'], None)
        import gc
        if op.get('gc'):
            gc.collect()

    # ---- bookkeeping ----------------------------------------------------------------------------------------
    def finish(self, op, res, rec):
        o = op['op']
        if o == 'read':
            spec = self.plan['specs'][op['spec']]
            m = MeshReg(res, spec, op['spec'])
            self.meshes[op['m']] = m
            rec['nids'], rec['eids'] = m.nids, m.eids
            rec['xyz'] = [m.xyz[k] for k in range(m.n)]
            if self.plan.get('conn'):
                rec['conn'] = world.check_topology(res, spec, op.get('xyz'))
            return None
        if o in ('k0', 'kG'):
            if not isinstance(res, np.ndarray):
                rec['bad'].append('type')
                return None
            self.touched.add(op['out'])
            self.mats[op['out']] = dict(arr=res, shadow=res.copy(), root=None, root_shadow=None)
            if o == 'k0':
                rec['index'] = self.meshes[op['m']].index()
            return np.array(res)
        if o == 'add':
            k = self.mats[op['k']]
            self.touched.add(op['k'])
            if res is not k['arr']:
                rec['bad'].append('identity')
            out = np.array(k['arr'])
            if self.local:
                m = self.meshes[op['m']]
                mask = coupled_mask(out.shape[0], m.orphans)
                a, b = out[~mask], self.before[~mask]
                if not np.array_equal(a, b, equal_nan=True):
                    rec['bad'].append('uncoupled')
                if k['root'] is not None and k['root'] is not k['arr']:
                    save = k['arr'].copy()
                    k['arr'][...] = self.before
                    if k['root'].tobytes() != k['root_shadow'].tobytes():
                        rec['bad'].append('outside')
                    k['arr'][...] = save
                rec['before'] = self.before
            k['shadow'] = k['arr'].copy()
            if k['root'] is not None:
                k['root_shadow'] = k['root'].copy()
            return out
        if o == 'mat':
            self.touched.add(op['out'])
            rec['n'] = res
            return None
        if o == 'topo':
            m = self.meshes[op['m']]
            rec['conn'] = world.check_topology(m.mesh, m.spec, [m.xyz[k] for k in range(m.n)], new=False)
            return None
        if o == 'mid' and 'out' in op:
            e = list(self.meshes[op['m']].mesh.edges.values())
            e = e[op['e'] % len(e)]
            rec['nids'] = [e.n1.nid, e.n2.nid]
        if o in ('mid', 'emid', 'help') and 'out' in op:
            return self.keep_result(op, res, rec)
        if o == 'mid':
            return np.array(res)
        if o == 'print':
            return res
        return None

    def failed(self, op, rec):
        """what a failed operation leaves undefined"""
        if op['op'] == 'read':
            self.meshes.pop(op['m'], None)
        if op['op'] == 'help':
            self.helped(op, rec)
        if op['op'] == 'add' and op['k'] in self.mats and not op.get('keep'):
            k = self.mats[op['k']]
            k['shadow'] = k['arr'].copy()
            if k['root'] is not None:
                k['root_shadow'] = k['root'].copy()
            self.touched.add(op['k'])

    def check_all(self, rec):
        bad = []
        for m in self.meshes.values():
            bad += m.check_inputs()
        for v in self.vecs.values():
            if v['arr'].tobytes() != v['shadow'].tobytes():
                bad.append('input:d')
        if getattr(self, 'cur_d', None) is not None:
            v = self.cur_d
            if v['arr'].tobytes() != v['shadow'].tobytes():
                bad.append('input:d')
            self.cur_d = None
        for key, (p, t) in self.array_shadow.items():
            pts, tri = self.arrays[key]
            if not np.array_equal(np.array(pts, dtype=float), p):
                bad.append('input:points')
            if not np.array_equal(tri.simplices, t):
                bad.append('input:simplices')
        if self.pool is not None and self.single and not self.pool.unchanged():
            bad.append('input:print')
        if self.plan.get('disjoint') and rec['op'] in ('read', 'k0', 'add', 'kG'):
            bad += aliases(self.meshes, [a[0] for a in self.arrays.values()])
        for lam, vals in zip(self.lams, self.lamv):
            if not world.same_lam(lam, vals):
                bad.append('input:lam')
        for n, k in self.mats.items():
            if k['arr'].tobytes() != k['shadow'].tobytes():
                bad.append('reg')
            names = list(self.mats)
        for i, n in enumerate(list(self.mats)):
            if n in self.touched:
                for o in self.mats:
                    if o != n and np.may_share_memory(self.mats[o]['arr'], self.mats[n]['arr']) and \
                            np.shares_memory(self.mats[o]['arr'], self.mats[n]['arr']):
                        bad.append('shared')
        return sorted(set(bad))

    # ---- running whole plans --------------------------------------------------------------------------------
    def run_ops(self, ops, sim=None, t=0):
        for k, op in enumerate(ops):
            self.exec(op, sim, t, k)


def as_kind(pts, kind):
    """the points as the caller may hand them over"""
    if kind == 'list':
        return pts.tolist()
    if kind == 'rows':
        return [np.array(p) for p in pts]
    if kind == 'F':
        return np.asfortranarray(pts)
    if kind == 'view':
        b = np.zeros((len(pts), pts.shape[1] + 2))
        b[:, 1:-1] = pts
        return b[:, 1:-1]
    if kind == 'reverse':
        return pts[::-1].copy()[::-1]
    if kind == 'tuple':
        return tuple(tuple(p) for p in pts.tolist())
    if kind == 'int':
        return pts.astype(np.int64)
    if kind == 'uint8':
        return pts.astype(np.uint8) if np.array_equal(pts.astype(np.uint8), pts) else pts
    if kind == 'intlist':
        return [[int(v) if v == int(v) else v for v in p] for p in pts.tolist()]
    if kind == 'f32':
        return pts.astype(np.float32)
    if kind == 'readonly':
        pts = pts.copy()
        pts.flags.writeable = False
    return pts


def as_simplices(s, kind):
    if kind in ('int64', 'int16', 'uint32'):
        return s.astype(kind)
    if kind == 'F':
        return np.asfortranarray(s)
    if kind == 'view':
        b = np.full((len(s), 5), -7, dtype=s.dtype)
        b[:, 1:-1] = s
        return b[:, 1:-1]
    if kind == 'readonly':
        s = s.copy()
        s.flags.writeable = False
    return s


COMMON = []


def common_parts():
    """attributes which any two pyNastran models share, or which are not containers"""
    if not COMMON:
        from pyNastran.bdf.bdf import BDF
        a, b = vars(BDF(debug=False)), vars(BDF(debug=False))
        COMMON.append(frozenset(n for n in a if n not in b or a[n] is b[n]))
    return COMMON[0]


def parts(mesh):
    """what a mesh is made of: {id: (label, object)} of modifiable objects, and its coordinate arrays"""
    out, arrays = {}, []

    def add(label, o):
        if o is not None:
            out[id(o)] = (label, o)

    def box(label, o):
        if isinstance(o, (list, dict, set, np.ndarray)):
            add(label, o)
    for n, v in sorted(vars(mesh).items()):
        if n in ('nodes', 'elements', 'edges') or n not in common_parts():
            box('mesh.' + n, v)
    for what, objs, attrs in (('node', mesh.nodes.values(), ('edges', 'trias')),
                              ('triangle', mesh.elements.values(), ('edges', 'nodes', 'nodes_ref')),
                              ('edge', mesh.edges.values(), ('trias', 'nodes', 'node_ids', 'ipts', 'sdomain'))):
        for o in objs:
            add(what, o)
            for a in attrs:
                v = getattr(o, a, None)
                if isinstance(v, np.ndarray):
                    continue
                box(what + '.' + a, v)
            for v in (getattr(o, 'xyz', None), getattr(o, 'sdomain', None)):
                if isinstance(v, np.ndarray):
                    arrays.append(v)
    return out, arrays


def aliases(meshes, points):
    regs = [m for _, m in sorted(meshes.items())]
    ps = [parts(m.mesh) for m in regs]
    bad = []
    for i in range(len(ps)):
        for p in points:
            for b in ([r for r in p if isinstance(r, np.ndarray)] if isinstance(p, (list, tuple)) else [p]):
                if any(np.may_share_memory(a, b) and np.shares_memory(a, b) for a in ps[i][1]):
                    bad.append('alias:points')
        for j in range(i):
            common = set(ps[i][0]) & set(ps[j][0])
            for c in common:
                bad.append('alias:' + ps[i][0][c][0])
            if any(np.may_share_memory(a, b) and np.shares_memory(a, b) for a in ps[i][1] for b in ps[j][1]):
                bad.append('alias:coordinates')
    return sorted(set(bad))


# ---- what the state of a history is at every operation (from the plan alone) --------------------------------

class Walk(object):
    """Follows the plan and yields, for every assembly call, the request that describes it completely."""

    def __init__(self, plan):
        self.plan = plan
        self.meshes = {}
        self.lams = list(plan.get('lams', []))
        self.vecs = {}
        self.mats = {}

    def clone(self):
        import copy
        w = Walk(self.plan)
        w.meshes = copy.deepcopy(self.meshes)
        w.lams = list(self.lams)
        w.vecs = copy.deepcopy(self.vecs)
        w.mats = copy.deepcopy(self.mats)
        return w

    def step(self, op, rec):
        """rec: what happened. Returns a request dict or None if the call is not one with a defined result."""
        o = op['op']
        if rec.get('skip'):
            return None
        failed = rec['exc'] is not None
        if o == 'read':
            if failed:
                self.meshes.pop(op['m'], None)
                return None
            spec = self.plan['specs'][op['spec']]
            n = len(world.all_nids(spec))
            self.meshes[op['m']] = dict(spec=op['spec'], xyz=[list(p) for p in op.get('xyz') or world.all_xyz(spec)], pn=[None]*n, pe=[None]*len(spec['tris']),
                                        fresh=None)
            return None
        if o in ('unprop', 'reprop'):
            m = self.meshes.get(op['m'])
            if m is not None:
                lst = m['pn'] if op['src'] == 'node' else m['pe']
                if o == 'unprop':
                    m.setdefault('saved', {})[(op['src'], op['k'])] = lst[op['k']]
                    lst[op['k']] = None
                else:
                    lst[op['k']] = m['saved'].pop((op['src'], op['k']))
            return None
        if o == 'props':
            m = self.meshes.get(op['m'])
            if m is None:
                return None
            if op['src'] in ('node', 'both'):
                for k, v in enumerate(op['pn']):
                    if k < len(m['pn']):
                        m['pn'][k] = v
            if op['src'] in ('elem', 'both'):
                m['pe'] = list(op['pe'])
            m['fresh'] = None
            return None
        if o == 'mutlam':
            self.lams[op['lam']] = op['to']
            for m in self.meshes.values():
                m['fresh'] = None
            return None
        if o == 'move':
            m = self.meshes.get(op['m'])
            if m is not None:
                for k, p in op['to'].items():
                    if int(k) < len(m['xyz']):
                        m['xyz'][int(k)] = list(p)
                if not op.get('keepstate'):
                    m['fresh'] = None
            return None
        if o == 'scribd':
            v = self.vecs.get(op['d'])
            if v is not None:
                v.append([op['kind'], op.get('seed', 0)])
            return None
        if o in ('scribble', 'mat'):
            return None
        if o == 'drop':
            self.vecs.pop(op['k'], None)
            if op.get('mesh'):
                self.meshes.pop(op['k'], None)
            return None
        if o in ('k0', 'add', 'kG'):
            m = self.meshes.get(op['m'])
            if m is None:
                return None
            dlist = None
            if o == 'kG':
                if 'dreg' in op:
                    if op['dreg'] not in self.vecs or self.vecs[op['dreg']][0][2] != len(m['xyz']):
                        self.vecs[op['dreg']] = [['new', op['d'], len(m['xyz'])]]
                    dlist = [list(x) for x in self.vecs[op['dreg']]]
                else:
                    dlist = [['new', op['d'], len(m['xyz'])]]
            if op.get('refuse'):
                return None
            ok = self.complete(m, op['pfn'])
            if o == 'k0':
                m['fresh'] = None if failed or not ok else bool(op['pfn'])
                if not ok:
                    return None
                return self.request(m, [['k0', bool(op['pfn'])]])
            if not ok or m['fresh'] is None:
                return None
            chain = [['k0', m['fresh'] if self.complete(m, m['fresh']) else bool(op['pfn'])]]
            if o == 'add':
                chain.append(['add', bool(op['pfn']), op['method'], op.get('alpha'), bool(op.get('mfa'))])
            else:
                chain.append(['kG', bool(op['pfn']), dlist])
            return self.request(m, chain)
        return None

    def complete(self, m, pfn):
        spec = self.plan['specs'][m['spec']]
        if pfn:
            used = set(k for t in spec['tris'] for k in t)
            return all(m['pn'][k] is not None for k in used)
        return all(p is not None for p in m['pe'])

    def request(self, m, chain):
        return dict(spec=m['spec'], xyz=[list(p) for p in m['xyz']], chain=chain,
                    pn=[None if k is None else self.lams[k] for k in m['pn']],
                    pe=[None if k is None else self.lams[k] for k in m['pe']])


def dvec(dlist):
    """replays the life of a displacement vector"""
    _, v, n = dlist[0]
    d = vector(v, 5*n)
    for kind, seed in dlist[1:]:
        if kind == 'zero':
            d[...] = 0
        elif kind == 'scale':
            d *= 2.5
        else:
            d[...] = vector(dict(seed=seed), len(d))
    return d


def solo(plan, req, where):
    """The same call, alone, on a freshly read mesh with the same coordinates and properties. Runs in a process of
    its own in which no other meshless call has been made. Returns (exception or None, result or None)."""
    from meshless.espim.plate2d_calc_k0 import calc_k0
    from meshless.espim.plate2d_calc_kG import calc_kG
    from meshless.espim.plate2d_add_k0s import add_k0s
    spec = plan['specs'][req['spec']]
    try:
        mesh = world.read(spec, os.path.join(where, 'spec%d' % req['spec']))
        lams = {}
        import json

        def lam(s):
            if s is None:
                return None
            k = json.dumps(s, sort_keys=True)
            if k not in lams:
                lams[k] = world.make_lam(s)
            return lams[k]
        for n, p, s in zip(world.all_nids(spec), req['xyz'], req['pn']):
            mesh.nodes[n].xyz = np.array(p, dtype=float)
            mesh.nodes[n].prop = lam(s)
        for e, s in zip(world.eids_of(spec), req['pe']):
            mesh.elements[e].prop = lam(s)
        out = None
        index = None
        for c in req['chain']:
            if c[0] == 'k0':
                out = calc_k0(mesh, c[1])
                index = [int(n.index) for n in mesh.nodes.values()]
            elif c[0] == 'add':
                out = np.zeros((5*len(mesh.nodes),)*2)
                kw = {}
                if c[3] is not None:
                    kw['alpha'] = c[3]
                if c[4]:
                    kw['maxl_from_area'] = True
                add_k0s(out, mesh, c[1], c[2], **kw)
            else:
                out = calc_kG(dvec(c[2]), mesh, c[1])
        return None, np.array(out), index
    except Exception as e:
        return [type(e).__name__, str(e)[:200]], None, None


# ---- comparing matrices -------------------------------------------------------------------------------------

def differ(a, b, rtol=1e-9, scale=None):
    """None if equal to rounding, else a short description. The tolerance is per class of degrees of freedom."""
    if a is None or b is None:
        return None if a is b else 'no matrix'
    if a.shape != b.shape:
        return 'shape %s instead of %s' % (a.shape, b.shape)
    n = b.shape[0]
    if not np.isfinite(a).all():
        if not np.isfinite(b).all() and np.array_equal(np.isnan(a), np.isnan(b)):
            return None
        return 'not finite'
    if n == 0:
        return None
    s = np.zeros(5)
    ab = np.abs(b) if scale is None else np.maximum(np.abs(b), np.abs(scale))
    for c in range(5):
        s[c] = ab[c::5, c::5].max()
    s = np.maximum(s, max(1e-7*s.max(), 1e-270))          # classes that are empty, pure rounding noise or hardly representable
    tol = rtol*np.sqrt(np.outer(s, s))
    tol = np.tile(tol, (n//5, n//5))
    e = np.abs(a - b)
    if (e > tol).any():
        i, j = np.unravel_index(np.argmax(e - tol), e.shape)
        return 'entry (%d,%d): %.10g instead of %.10g' % (i, j, a[i, j], b[i, j])
    return None
