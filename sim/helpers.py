"""Interpolation and geometry helpers: shared arguments owned by the caller, calls, and the reference model."""
import math

import numpy as np

from .base import HarnessError

LAYOUTS = ('array', 'array', 'list', 'tuple', 'view', 'stride', 'readonly', 'int', 'intlist', 'rev')


# ---- arguments ------------------------------------------------------------------------------------------------

def nested(v, kind):
    if isinstance(v, list):
        return kind(nested(x, kind) for x in v)
    return v


def build(vals, layout):
    """the object the caller passes"""
    if layout == 'scalar':
        return float(vals)
    if layout == 'list':
        return nested(vals, list)
    if layout == 'intlist':
        return nested(np.rint(np.array(vals)).astype(int).tolist(), list)
    if layout == 'tuple':
        return nested(vals, tuple)
    a = np.array(vals, dtype=float)
    if layout == 'int':
        return np.rint(a).astype(int)
    if layout == 'array':
        return a
    if layout == 'F':
        return np.asfortranarray(a)
    if layout == 'readonly':
        a.flags.writeable = False
        return a
    if layout == 'view':
        b = np.full(tuple(n + 2 for n in a.shape), 7.25)
        v = b[tuple(slice(1, n + 1) for n in a.shape)]
    elif layout == 'stride':
        b = np.full(tuple(2*n + 1 for n in a.shape), -3.5)
        v = b[tuple(slice(1, 2*n + 1, 2) for n in a.shape)]
    elif layout == 'rev':
        b = np.full(a.shape, 0.)
        v = b[tuple(slice(None, None, -1) for n in a.shape)]
    else:
        raise HarnessError(layout)
    v[...] = a
    return v


def values(vals, layout):
    """what is passed, as floats"""
    a = np.array(vals, dtype=float)
    return np.rint(a) if layout in ('int', 'intlist') else a


def assign(obj, vals, layout):
    """the caller overwrites an argument in place (or, where that cannot be done, replaces it)"""
    if layout == 'list' or layout == 'intlist':
        new = build(vals, layout)
        obj[:] = new
        return obj
    if isinstance(obj, np.ndarray) and obj.flags.writeable:
        obj[...] = build(vals, layout)
        return obj
    return build(vals, layout)


def freeze(obj):
    """value, type and identity of an argument"""
    if isinstance(obj, np.ndarray):
        b = obj
        while isinstance(b.base, np.ndarray):
            b = b.base
        return ('a', obj.dtype.str, obj.shape, b.tobytes())
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__, tuple(freeze(x) for x in obj))
    return (type(obj).__name__, repr(obj))


# ---- the reference model --------------------------------------------------------------------------------------

def basis(x, nodes, others=None):
    """L[i, k]: the i-th Lagrange polynomial of the nodes at x[k]"""
    x = np.atleast_1d(x)
    out = np.ones((len(nodes), len(x)))
    for i in range(len(nodes)):
        for j, c in enumerate(nodes if others is None else others):
            if j != i and nodes[i] != c:
                out[i] *= (x - c)/(nodes[i] - c)
    return out


def lagrange(qs, ns, f, defect=False):
    """(value, magnitude of the terms). defect=True: the known finding F2 (z nodes replaced by y nodes)"""
    ls = [basis(q, n, ns[1] if defect and c == 2 else None) for c, (q, n) in enumerate(zip(qs, ns))]
    e = 'ik,jk,ij->k' if len(ls) == 2 else 'ik,jk,lk,ijl->k'
    with np.errstate(all='ignore'):
        return np.einsum(e, *(ls + [f])), np.einsum(e, *([np.abs(l) for l in ls] + [np.abs(f)]))


def polygon(x, y):
    n = len(x)
    # relative to the first vertex: fans of triangles
    s = 0.
    for i in range(1, n - 1):
        s += (x[i] - x[0])*(y[i+1] - y[0]) - (x[i+1] - x[0])*(y[i] - y[0])
    mag = sum(abs(x[i])*(abs(y[(i+1) % n]) + abs(y[i-1])) for i in range(n))
    return abs(s)/2, mag


def check_lagrange(out, qs, ns, f):
    """None, 'F2', or what is wrong"""
    k = max(np.size(q) for q in qs)
    scalar = all(np.ndim(q) == 0 for q in qs)
    try:
        got = np.array(out, dtype=float)
    except Exception:
        return 'returned a %s' % type(out).__name__
    if got.shape not in (((),) if scalar else ((k,),)):
        if not (got.shape in ((), (1,)) and all(len(n) == 1 for n in ns)):
            return 'shape %s for %d points' % (got.shape, k)
    got = np.broadcast_to(np.atleast_1d(got), (k,))
    want, mag = lagrange(qs, ns, f)
    bad = wrong(got, want, mag)
    if bad and len(ns) == 3 and not wrong(got, *lagrange(qs, ns, f, True)):
        return 'F2'
    return bad


def wrong(got, want, mag):
    for k in range(len(want)):
        if not abs(got[k] - want[k]) <= 1e-9*mag[k] + 1e-300:
            return 'value %.12g instead of %.12g at point %d' % (got[k], want[k], k)
    return None


# ---- generation -----------------------------------------------------------------------------------------------

def gen_nodes(rng, n, ints=False):
    """distinct control nodes of one direction"""
    if ints:
        v = rng.sample(range(-9, 10), n)
        if rng.random() < 0.5:
            v.sort()
        return [float(x) for x in v]
    kind = rng.choice(['even', 'even', 'random', 'random', 'close', 'neg'])
    scale = 10.**rng.choice([-6, -3, -1, 0, 0, 0, 1, 3, 5])
    if kind == 'even':
        v = [i/max(1., n - 1.) for i in range(n)]
    elif kind == 'close' and n > 1:
        v = [rng.uniform(-1, 1) for _ in range(n - 1)]
        v.append(v[0] + rng.choice([1e-5, 1e-7, -1e-6, 1e-8]))
    else:
        v = []
        while len(v) < n:
            c = rng.uniform(-1, 1)
            if all(abs(c - x) > 0.05 for x in v):
                v.append(c)
    if kind == 'neg':
        v = [-abs(x) - 0.01 for x in v]
        v = v if len(set(v)) == n else [-0.1 - i for i in range(n)]
    if rng.random() < 0.4:
        rng.shuffle(v)
    if rng.random() < 0.15:
        v = [x + rng.choice([10., -100.]) for x in v]
    v = [x*scale for x in v]
    return v if len(set(v)) == n else [float(i) for i in range(n)]


def gen_query(rng, nodes, k, ints=False):
    lo, hi = min(nodes), max(nodes)
    w = (hi - lo) or abs(lo) or 1.
    out = []
    for _ in range(k):
        r = rng.random()
        if r < 0.35:
            x = rng.choice(nodes)
        elif r < 0.8:
            x = rng.uniform(lo, hi)
        else:
            x = rng.uniform(lo - w, hi + w)
        out.append(float(round(x)) if ints else x)
    return out


def gen_field(rng, shape, ints=False):
    kind = rng.choice(['random', 'random', 'random', 'one', 'const', 'rows', 'sparse', 'zero' if rng.random() < 0.5 else 'random'])
    if ints:
        a = np.array([[float(rng.randrange(-90, 91)) for _ in range(int(np.prod(shape)))]]).reshape(shape)
    else:
        a = np.array([rng.uniform(-1, 1) for _ in range(int(np.prod(shape)))]).reshape(shape)*10.**rng.choice([-12, -3, 0, 0, 2, 6])
    if kind == 'one':
        i = tuple(rng.randrange(s) for s in shape)
        v = a[i]
        a[...] = 0.
        a[i] = v or 1.
    elif kind == 'const':
        a[...] = a.flat[0]
    elif kind == 'zero':
        a[...] = 0.
    elif kind == 'sparse':
        for _ in range(rng.randrange(1, a.size + 1)):
            a.flat[rng.randrange(a.size)] = 0.
    elif kind == 'rows':
        a[...] = a[(slice(None),) + (slice(0, 1),)*(len(shape) - 1)]
    return a.tolist()


def gen_polygon(rng, ints=False):
    """a simple polygon (star shaped), in either sense of rotation"""
    n = rng.choice([3, 3, 4, 4, 5, 6, 8, 12] + [40]*(rng.random() < 0.2))
    while True:
        ang = sorted(rng.uniform(0, 2*math.pi) for _ in range(n))
        gaps = [(ang[(i+1) % n] - ang[i]) % (2*math.pi) for i in range(n)]
        if max(gaps) < 3.0 and min(gaps) > 0.02:
            break
    r = [rng.choice([1., 1., rng.uniform(0.2, 1.)]) for _ in range(n)]
    s = 10.**rng.choice([-4, -1, 0, 0, 1, 3])
    if ints:
        s = rng.choice([20., 300.])
    ox, oy = (rng.choice([0., 0., 3.*s, -50.*s]) for _ in 'xy')
    x = [ox + s*q*math.cos(t) for q, t in zip(r, ang)]
    y = [oy + s*q*math.sin(t) for q, t in zip(r, ang)]
    if rng.random() < 0.2:             # a vertex in the middle of a side
        i = rng.randrange(n)
        j = (i + 1) % n
        x.insert(i + 1, (x[i] + x[j])/2)
        y.insert(i + 1, (y[i] + y[j])/2)
    if rng.random() < 0.4:
        x.reverse()
        y.reverse()
    k = rng.randrange(len(x))
    x, y = x[k:] + x[:k], y[k:] + y[:k]
    if ints:
        x, y = [float(round(v)) for v in x], [float(round(v)) for v in y]
    return x, y


def gen_vector(rng, ints=False):
    n = rng.choice([2, 3, 3])
    if ints:
        v = [float(rng.randrange(-9, 10)) for _ in range(n)]
    else:
        v = [rng.uniform(-1, 1) for _ in range(n)]
        if rng.random() < 0.3:
            k = rng.randrange(n)
            v = [x if i == k else 0. for i, x in enumerate(v)]
        s = 10.**rng.choice([-80, -9, -3, 0, 0, 0, 4, 60])
        v = [x*s for x in v]
    return v if any(v) else [0., 1., 0.][:n]
