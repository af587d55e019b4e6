"""The simulated world: meshes, decks, laminates (generation and materialisation)."""
import os

import numpy as np
from scipy.spatial import Delaunay

METHODS = ('cell-based', 'cell-based-no-smoothing', 'edge-based')


# ---- generation (plain data only) --------------------------------------------------------------------------

def _angle_ok(p, t, amin=0.14):
    a, b, c = (np.asarray(p[i][:2], float) for i in t)
    for u, v, w in ((a, b, c), (b, c, a), (c, a, b)):
        x, y = v - u, w - u
        cr = abs(x[0]*y[1] - x[1]*y[0])
        den = np.hypot(*x)*np.hypot(*y)
        if den == 0 or cr/den < amin:
            return False
    return True


def gen_points(rng, nx, ny, jitter, scale, aspect):
    pts = []
    for j in range(ny):
        for i in range(nx):
            x, y = float(i), float(j)*aspect
            if 0 < i < nx - 1:
                x += jitter*(rng.random() - 0.5)
            if 0 < j < ny - 1:
                y += jitter*aspect*(rng.random() - 0.5)
            pts.append([round(x*scale, 4), round(y*scale, 4)])
    return pts


def gen_mesh(rng, src=None, size=None, plain=False):
    """A mesh specification. src: deck | del2 | del3 | tri2 | tri3 (explicit simplices)."""
    src = src or rng.choice(['deck', 'del2', 'del2', 'del3', 'tri2', 'tri3'])
    while True:
        if size == 'tiny':
            nx, ny = rng.choice([(2, 2), (2, 2), (3, 2), (2, 3)])
        elif size == 'grid':
            nx, ny = 8, 7
        elif size == 'big':
            nx, ny = rng.choice([(4, 4), (5, 4), (4, 6), (5, 5)])
        else:
            nx, ny = rng.choice([(2, 2), (3, 2), (2, 3), (3, 3), (4, 2), (3, 3), (4, 3)])
            if rng.random() < 0.02:
                nx, ny = 8, 7
        scale = rng.choice([1., 1., 0.25, 3., 12.])
        aspect = rng.choice([1., 1., 0.6, 1.7])
        pts = gen_points(rng, nx, ny, rng.choice([0., 0.3, 0.5]), scale, aspect)
        if src in ('del2', 'del3'):
            if rng.random() < 0.5 and len(pts) < 14:
                pts.append([round((0.3 + 0.4*rng.random())*(nx - 1)*scale, 4),
                            round((0.3 + 0.4*rng.random())*(ny - 1)*aspect*scale, 4)])
            tris = [[int(k) for k in t] for t in Delaunay(np.array(pts)).simplices]
        else:
            # shear/rotate the whole grid so that nothing is axis-aligned, random diagonals
            th = rng.random()*3 if rng.random() < 0.7 else 0.
            c, s = np.cos(th), np.sin(th)
            pts = [[round(float(c*x - s*y), 4), round(float(s*x + c*y), 4)] for x, y in pts]
            tris = []
            for j in range(ny - 1):
                for i in range(nx - 1):
                    a, b, cc, d = j*nx + i, j*nx + i + 1, (j + 1)*nx + i + 1, (j + 1)*nx + i
                    tris += [[a, b, cc], [a, cc, d]] if rng.random() < 0.5 else [[a, b, d], [b, cc, d]]
            if len(tris) > 4 and rng.random() < 0.2 and not plain:
                tris.pop(rng.randrange(len(tris)))              # a hole or a notch
        if nx*ny == 4 and rng.random() < 0.15 and not plain:        # a single triangle
            tris = tris[:1]
            used = sorted(tris[0])
            pts = [pts[k] for k in used]
            tris = [[used.index(k) for k in tris[0]]]
        if rng.random() < 0.2:                                      # away from the origin
            ox, oy = rng.choice([(-5., 0.5), (10., -3.25), (-0.7, -12.), (0.25, 20.)])
            pts = [[round(x + ox, 4), round(y + oy, 4)] for x, y in pts]
        if src != 'deck' and rng.random() < 0.12:                   # residues of earlier arithmetic
            pts = [[x + rng.choice([0., 1e-13, -3e-14, 7e-16]), y + rng.choice([0., 2e-13, -1e-15])] for x, y in pts]
        if len(set(map(tuple, pts))) != len(pts) or not all(_angle_ok(pts, t) for t in tris):
            continue
        if set(k for t in tris for k in t) != set(range(len(pts))) and src in ('del2', 'del3'):
            continue
        break
    # the order in which triangles come, which node comes first, sense of rotation
    order = list(range(len(tris)))
    if rng.random() < 0.7:
        rng.shuffle(order)
    tris = [tris[k] for k in order]
    if rng.random() < 0.7:
        tris = [turn(t, rng.randrange(6)) for t in tris]
    spec = dict(src=src, pts=pts, z=0. if src in ('del2', 'tri2') else rng.choice([0., 0., 0.5, -1.25]), tris=tris)
    if src == 'deck':
        spec['deck'] = gen_deck(rng, len(pts), len(tris), plain)
    elif rng.random() < 0.08:                                       # very small or very large
        f = rng.choice([1e-6, 1e-4, 1e-3, 1e3, 1e4])
        spec['pts'] = [[f*x for x in p] for p in pts]
        spec['z'] = f*spec['z']
    return spec


def turn(t, k):
    a, b, c = t
    return [[a, b, c], [b, c, a], [c, a, b], [b, a, c], [a, c, b], [c, b, a]][k]


def gen_deck(rng, npts, ntri, plain=False):
    big = rng.random() < 0.2
    nids = rng.sample(range(1, 99999999 if big else 3*npts + 20), npts)
    eids = rng.sample(range(1, 99999999 if big else 3*ntri + 20), ntri)
    d = dict(nids=nids, eids=eids, fmt=rng.choice(['small', 'large', 'free', 'mixed']), gorder=list(range(npts)),
             eorder=list(range(ntri)), pids=[1]*ntri, npid=1, include=0, first='grid', orphans=[], exec=rng.random() < 0.5,
             comments=rng.random() < 0.5)
    if rng.random() < 0.6:
        rng.shuffle(d['gorder'])
    if rng.random() < 0.6:
        rng.shuffle(d['eorder'])
    if rng.random() < 0.5:
        d['npid'] = rng.choice([2, 3])
        d['pids'] = [rng.randrange(1, d['npid'] + 1) for _ in range(ntri)]
    if rng.random() < 0.4:
        d['include'] = rng.choice([1, 2, 3])
    if rng.random() < 0.4:
        d['first'] = 'elem'
    if rng.random() < 0.15 and not plain:
        free = [k for k in range(1, 3*npts + 40) if k not in nids]
        d['orphans'] = [[free[0], 0.123, -4.5]]
    if rng.random() < 0.15:
        d['pad'] = rng.choice([40, 200, 700])        # many comment lines: the file spans several read buffers
    if rng.random() < 0.12 and not plain:            # some points given in coordinate systems of their own
        coords = []
        for k in range(rng.choice([1, 1, 2, 3])):
            coords.append([rng.choice([3, 71, 9000]) + k, rng.choice([0]*2 + [c[0] for c in coords]),
                           [0.25*rng.randrange(-40, 41) for _ in range(3)], rng.randrange(24)])
        rng.shuffle(coords) if rng.random() < 0.3 else None
        p = rng.choice([0.2, 0.5, 1.])
        d['coords'] = coords
        d['cp'] = [rng.choice(coords)[0] if rng.random() < p else 0 for _ in range(npts)]
    return d


FRAMES = []
for _p in ((0, 1, 2), (1, 2, 0), (2, 0, 1), (0, 2, 1), (2, 1, 0), (1, 0, 2)):
    for _s in range(8):
        _m = np.zeros((3, 3))
        for _r in range(3):
            _m[_r, _p[_r]] = -1. if _s >> _r & 1 else 1.
        if np.linalg.det(_m) > 0:
            FRAMES.append(_m)


def frame_of(d, cid):
    """origin and axes (rows) of a coordinate system in the basic one"""
    if not cid:
        return np.zeros(3), np.eye(3)
    c = {x[0]: x for x in d['coords']}[cid]
    a, m = frame_of(d, c[1])
    return a + m.T.dot(np.array(c[2])), FRAMES[c[3]].dot(m)


def to_local(d, cid, p):
    if not cid:
        return p
    a, m = frame_of(d, cid)
    return [round(float(v), 4) for v in m.dot(np.array(p) - a)]


def to_basic(d, cid, p):
    a, m = frame_of(d, cid)
    return [float(v) for v in m.T.dot(np.array(p)) + a] if cid else p


def _coord(c):
    a, m = np.array(c[2]), FRAMES[c[3]]
    return 'CORD2R,%d,%d,%s\n,%s' % (c[0], c[1], ','.join(fl(v, 8) for v in list(a) + list(a + m[2])),
                                   ','.join(fl(v, 8) for v in a + m[0] + 0.5*(c[0] % 3)*m[2]))


def gen_lam(rng):
    n = rng.choice([1, 2, 3, 4])
    stack = [rng.choice([0, 15, 30, 45, -45, 60, 90, -20]) for _ in range(n)]
    return dict(stack=stack, plyt=round(rng.choice([0.002, 0.01, 0.03, 0.1])*(0.7 + 0.6*rng.random()), 6),
                prop=[round(v*(0.8 + 0.4*rng.random()), 6) for v in
                      rng.choice([(130e3, 9e3, 0.3, 5e3, 4e3, 3e3), (70e3, 69e3, 0.3, 27e3, 26e3, 25e3),
                                  (2e3, 1e3, 0.2, 400., 900., 300.)])],
                k13=round(0.5 + 0.5*rng.random(), 4), k23=round(0.5 + 0.5*rng.random(), 4))


def vary_lam(rng, s):
    """a laminate that has much in common with another one"""
    s = dict(s, stack=list(s['stack']), prop=list(s['prop']))
    how = rng.choice(['negate', 'negate', 'reverse', 'scf', 'swap', 'thickness', 'modulus', 'turn', 'order'])
    if how == 'negate':
        s['stack'] = [-x for x in s['stack']]
    elif how == 'reverse':
        s['stack'].reverse()
    elif how == 'order':
        rng.shuffle(s['stack'])
    elif how == 'scf':
        s[rng.choice(['k13', 'k23'])] = round(0.5 + 0.5*rng.random(), 4)
    elif how == 'swap':
        s['k13'], s['k23'] = s['k23'], s['k13']
    elif how == 'thickness':
        s['plyt'] = s['plyt']*(1 + rng.choice([1e-4, -1e-3, 0.02]))
    elif how == 'modulus':
        i = rng.randrange(len(s['prop']))
        s['prop'][i] = round(s['prop'][i]*(1 + rng.choice([1e-3, -0.05, 0.2])), 6)
    else:
        s['stack'] = [x + 90 for x in s['stack']]
    return s


# ---- materialisation ---------------------------------------------------------------------------------------

def make_lam(s):
    from composites.laminate import read_stack
    lam = read_stack(list(s['stack']), plyt=s['plyt'], laminaprop=tuple(s['prop']))
    lam.scf_k13 = s['k13']
    lam.scf_k23 = s['k23']
    if s.get('frame'):
        turn_lam(lam, s['frame'])
    if s.get('asym'):                           # matrices that come from other arithmetic are symmetric to rounding only
        for a in 'ABD':
            m = np.array(getattr(lam, a), dtype=float)
            m[np.tril_indices(3, -1)] *= 1 + 3e-16*np.array([1, 2, 3])
            setattr(lam, a, m)
    return lam


def turn_lam(lam, f):
    """the same laminate in other axes and units (R: 2x2 orthogonal, s: length, c: stiffness)"""
    R = np.array(f['R'])
    T = np.zeros((3, 3))
    for k, e in enumerate(([[1, 0], [0, 0]], [[0, 0], [0, 1]], [[0, .5], [.5, 0]])):
        t = R.dot(np.array(e, dtype=float)).dot(R.T)
        T[:, k] = t[0, 0], t[1, 1], 2*t[0, 1]
    T = np.linalg.inv(T)
    for a in 'ABD':
        setattr(lam, a, f['c']*T.T.dot(np.array(getattr(lam, a), dtype=float)).dot(T))
    E = f['c']*np.array(lam.E, dtype=float)
    if abs(R[0, 0]) < 0.5 and abs(R[0, 1]) > 0.99:       # a quarter turn
        E = E[::-1, ::-1].copy()
        lam.scf_k13, lam.scf_k23 = lam.scf_k23, lam.scf_k13
    lam.E = E
    lam.h = f['s']*lam.h


LAM_ARRAYS = ('A', 'B', 'D', 'E')


def lam_values(lam):
    rest = []
    for k, v in sorted(vars(lam).items()):      # and whatever else a laminate consists of when it is handed over
        if isinstance(v, np.ndarray):
            rest.append([k, v.dtype.str, v.shape, v.tobytes()])
        elif v is None or isinstance(v, (int, float, str)):
            rest.append([k, repr(v)])
        elif isinstance(v, list):
            rest.append([k, [repr(x) if isinstance(x, (int, float, str)) else id(x) for x in v]])
    return [np.array(getattr(lam, a), dtype=float) for a in LAM_ARRAYS] + [lam.h, lam.scf_k13, lam.scf_k23] + [rest]


def lam_dict(s, _cache={}):
    import json
    key = json.dumps(s, sort_keys=True)
    if key not in _cache:
        if len(_cache) > 500:
            _cache.clear()
        lam = make_lam(s)
        _cache[key] = dict(A=np.array(lam.A), B=np.array(lam.B), D=np.array(lam.D), E=np.array(lam.E), h=float(lam.h),
                           k13=lam.scf_k13, k23=lam.scf_k23)
    return _cache[key]


def same_lam(lam, vals):
    try:
        now = lam_values(lam)
    except Exception:
        return False
    if any(x not in now[-1] for x in vals[-1]):         # attributes that were not there before are not looked at
        return False
    return all(np.array_equal(a, b) if isinstance(b, np.ndarray) else a == b for a, b in zip(now[:-1], vals))


def update_lam(lam, s):
    """the caller changes a property object in place"""
    new = make_lam(s)
    for k, v in vars(new).items():
        o = getattr(lam, k, None)
        if isinstance(v, np.ndarray) and isinstance(o, np.ndarray) and o.shape == v.shape:
            o[...] = v
        else:
            setattr(lam, k, v)


def fl(x, width=8):
    """a Nastran real in at most width characters that reads back as the same double when x has few digits"""
    for f in ('%.4f', '%.3f', '%.2f', '%.1f'):
        s = f % x
        if len(s) <= width and float(s) == x:
            return s
    for prec in range(17, 0, -1):
        s = '%.*g' % (prec, x)
        if '.' not in s and 'e' not in s:
            s += '.'
        if len(s) <= width and 'e' not in s:
            return s
    for prec in range(16, 1, -1):
        s = '%.*f' % (prec, x)
        if len(s) <= width:
            return s
    raise ValueError(x)


def _grid(nid, x, y, z, fmt, cp=''):
    cp = cp or ''
    if fmt == 'free':
        return 'GRID,%d,%s,%s,%s,%s' % (nid, cp, fl(x, 16), fl(y, 16), fl(z, 16))
    if fmt == 'large':
        return ('%-8s%16d%16s%16s%16s%-8s\n%-8s%16s' % ('GRID*', nid, cp, fl(x, 16), fl(y, 16), '*', '*', fl(z, 16)))
    return '%-8s%8d%8s%8s%8s%8s' % ('GRID', nid, cp, fl(x), fl(y), fl(z))


def _tria(eid, pid, n, fmt):
    if fmt == 'free':
        return 'CTRIA3,%d,%d,%d,%d,%d' % (eid, pid, n[0], n[1], n[2])
    if fmt == 'large':
        return '%-8s%16d%16d%16d%16d%-8s\n%-8s%16d' % ('CTRIA3*', eid, pid, n[0], n[1], '*', '*', n[2])
    return '%-8s%8d%8d%8d%8d%8d' % ('CTRIA3', eid, pid, n[0], n[1], n[2])


def point(spec, i):
    p = spec['pts'][i]
    return [p[0], p[1], p[2] if len(p) > 2 else spec['z']]


def parsed(spec, i):
    """the coordinates the deck actually states for point i"""
    d = spec['deck']
    w = 8 if fmt_of(d, i) == 'small' else 16
    cp = cp_of(d, i)
    return to_basic(d, cp, [float(fl(v, w)) for v in to_local(d, cp, point(spec, i))])


def cp_of(d, i):
    return d['cp'][i] if 'cp' in d else 0


def fmt_of(d, k):
    return d['fmt'] if d['fmt'] != 'mixed' else ('small', 'large', 'free')[k % 3]


def deck_files(spec, extra=()):
    """{relative name: text}; 'main.bdf' is the deck"""
    d = spec['deck']
    g = [_grid(d['nids'][i], *to_local(d, cp_of(d, i), point(spec, i)), fmt=fmt_of(d, i), cp=cp_of(d, i)) for i in d['gorder']]
    g += [_grid(n, x, y, spec['z'], 'free') for n, x, y in d['orphans']]
    e = [_tria(d['eids'][k], d['pids'][k], [d['nids'][i] for i in spec['tris'][k]], fmt_of(d, k)) for k in d['eorder']]
    p = []
    for k in range(1, d['npid'] + 1):
        p.append('%-8s%8d%8d%8s%8d%8s%8d' % ('PSHELL', k, 1, '%.4f' % (0.007*k), 1, '', 1))
    p.append('MAT1    %8d%8s%8s%8s' % (1, '71.+9', '', '.33'))
    p += [_coord(c) for c in d.get('coords', ())]
    p += list(extra)
    pad = []
    if d.get('pad'):
        pad = ['$ %05d %s' % (k, 'x'*60) for k in range(d['pad'])]
    if d['comments']:
        g.insert(0, '$ grid points')
        e.insert(len(e)//2, '$ triangles')
    head = ['SOL 101', 'CEND', 'ECHO = NONE', 'BEGIN BULK'] if d['exec'] else ['$ pyNastran: punch=True']
    blocks = [g, e] if d['first'] == 'grid' else [e, g]
    files = {}
    body = p + pad
    inc = d['include']
    if inc == 0:
        body += blocks[0] + blocks[1]
    elif inc == 1:
        body += blocks[0] + ["INCLUDE 'part1.bdf'"]
        files['part1.bdf'] = '\n'.join(blocks[1]) + '\n'
    elif inc == 2:
        body += ["INCLUDE 'part1.bdf'", "INCLUDE 'sub.inc'"]
        files['part1.bdf'] = '\n'.join(blocks[0]) + '\n'
        files['sub.inc'] = '\n'.join(blocks[1]) + '\n'
    else:
        h = len(blocks[1])//2
        body += ["INCLUDE 'part1.bdf'"] + blocks[1][h:]
        files['part1.bdf'] = '\n'.join(blocks[0] + ["INCLUDE 'part2.bdf'"]) + '\n'
        files['part2.bdf'] = '\n'.join(blocks[1][:h]) + '\n'
    if d['exec']:
        body.append('ENDDATA')
    files['main.bdf'] = '\n'.join(head + body) + '\n'
    return files


def write_deck(spec, where, extra=()):
    os.makedirs(where, exist_ok=True)
    for n, text in deck_files(spec, extra).items():
        with open(os.path.join(where, n), 'w') as f:
            f.write(text)
    return os.path.join(where, 'main.bdf')


class Triangulation(object):
    def __init__(self, simplices):
        self.simplices = simplices


def points_and_tri(spec):
    n = len(spec['pts'])
    if spec['src'] in ('del2', 'tri2'):
        pts = np.array(spec['pts'], dtype=float)
    else:
        pts = np.array([point(spec, i) for i in range(n)], dtype=float)
    want = np.array(spec['tris'], dtype=np.int32).reshape(-1, 3)
    if spec['src'] in ('del2', 'del3'):
        tri = Delaunay(np.array(spec['pts'], dtype=float)[:, :2])
        # deliver the same triangulation in the order of the specification, consistently
        old = {tuple(sorted(map(int, t))): (k, [int(x) for x in t]) for k, t in enumerate(tri.simplices)}
        if set(old) == set(tuple(sorted(t)) for t in spec['tris']):
            perm = [old[tuple(sorted(t))][0] for t in spec['tris']]
            inv = {o: k for k, o in enumerate(perm)}
            nb = []
            for k, t in enumerate(spec['tris']):
                ot = [int(x) for x in tri.simplices[perm[k]]]
                on = [int(x) for x in tri.neighbors[perm[k]]]
                nb.append([inv.get(on[ot.index(v)], -1) for v in t])
            tri.simplices = want
            tri.neighbors = np.array(nb, dtype=np.int32)
            return pts, tri
    return pts, Triangulation(want)


def read(spec, where=None, verbose=False, arrays=None):
    """a mesh created by the code under test"""
    from meshless.espim.read_mesh import read_mesh, read_delaunay
    kw = dict(silent=False) if verbose else {}
    if spec['src'] == 'deck':
        return read_mesh(os.path.join(where, 'main.bdf'), **kw)
    pts, tri = arrays if arrays is not None else points_and_tri(spec)
    return read_delaunay(pts, tri, **kw)


def nids_of(spec):
    return spec['deck']['nids'] if spec['src'] == 'deck' else list(range(1, len(spec['pts']) + 1))


def eids_of(spec):
    return spec['deck']['eids'] if spec['src'] == 'deck' else list(range(1, len(spec['tris']) + 1))


def xyz_of(spec):
    n = len(spec['pts'])
    return [parsed(spec, i) if spec['src'] == 'deck' else point(spec, i) for i in range(n)]


def all_nids(spec):
    """nids of every node incl. orphans"""
    return list(nids_of(spec)) + ([o[0] for o in spec['deck']['orphans']] if spec['src'] == 'deck' else [])


def all_xyz(spec):
    return xyz_of(spec) + ([[o[1], o[2], spec['z']] for o in spec['deck']['orphans']] if spec['src'] == 'deck' else [])


def check_topology(mesh, spec, xyz=None, new=True):
    """None, or how the mesh differs from what the specification describes (nodes, triangles, edges and references)"""
    nids, eids = all_nids(spec), eids_of(spec)
    if sorted(mesh.nodes) != sorted(nids):
        return 'nodes'
    if sorted(mesh.elements) != sorted(eids):
        return 'triangles'
    want = {}
    for k, t in enumerate(spec['tris']):
        n = [nids[i] for i in t]
        tria = mesh.elements[eids[k]]
        if [x.nid for x in tria.nodes] != n or list(tria.node_ids) != n or tria.eid != eids[k]:
            return 'nodes of a triangle'
        if any(x is not mesh.nodes[x.nid] for x in tria.nodes):
            return 'triangle refers to a node that is not in the mesh'
        if spec['src'] == 'deck' and int(tria.pid) != spec['deck']['pids'][k]:
            return 'property id'
        if new and tria.prop is not None:
            return 'property assigned'
        for a, b in ((0, 1), (1, 2), (2, 0)):
            want.setdefault(tuple(sorted((n[a], n[b]))), []).append(eids[k])
    for i, n in enumerate(nids):
        node = mesh.nodes[n]
        if node.nid != n:
            return 'node id'
        if new and node.prop is not None:
            return 'property assigned'
    xyz = xyz or all_xyz(spec)
    for i, n in enumerate(nids):
        if [float(v) for v in mesh.nodes[n].xyz] != xyz[i]:
            return 'coordinates'
        if [float(v) for v in mesh.nodes[n].get_position()] != xyz[i]:
            return 'position'
    at = dict(zip(nids, xyz))
    got = {}
    for key, e in mesh.edges.items():
        a, b = e.n1.nid, e.n2.nid
        if a in at and b in at and [float(v) for v in e.n1.xyz - e.n2.xyz] != [u - v for u, v in zip(at[a], at[b])]:
            return 'distance of two nodes'
        k = tuple(sorted((e.n1.nid, e.n2.nid)))
        if k in got:
            return 'edge twice'
        got[k] = sorted(t.eid for t in e.trias)
        if tuple(sorted(key)) != k:
            return 'edge key'
        if e.n1 is not mesh.nodes[e.n1.nid] or e.n2 is not mesh.nodes[e.n2.nid]:
            return 'edge refers to a node that is not in the mesh'
        if sorted(x.nid for x in e.nodes) != list(k):
            return 'nodes of an edge'
        if any(t is not mesh.elements[t.eid] for t in e.trias):
            return 'edge refers to a triangle that is not in the mesh'
    if got != {k: sorted(v) for k, v in want.items()}:
        return 'edges'
    for k, t in enumerate(spec['tris']):
        tria = mesh.elements[eids[k]]
        es = sorted(tuple(sorted((e.n1.nid, e.n2.nid))) for e in tria.edges)
        n = [nids[i] for i in t]
        if es != sorted(tuple(sorted(p)) for p in ((n[0], n[1]), (n[1], n[2]), (n[2], n[0]))):
            return 'edges of a triangle'
        if any(e is not mesh.edges.get((e.n1.nid, e.n2.nid), mesh.edges.get((e.n2.nid, e.n1.nid))) for e in tria.edges):
            return 'triangle refers to an edge that is not in the mesh'
    for i, n in enumerate(nids):
        node = mesh.nodes[n]
        es = sorted(tuple(sorted((e.n1.nid, e.n2.nid))) for e in node.edges)
        if es != sorted(k for k in want if n in k):
            return 'edges of a node'
        ts = sorted(int(getattr(t, 'eid', t)) for t in node.trias)
        if ts != sorted(eids[k] for k, t in enumerate(spec['tris']) if i in t):
            return 'triangles of a node'
    return None
