"""Reference model of the ES-PIM Mindlin plate formulation. numpy only; no meshless code.

A state is a dict: xyz (list of [x,y,z] by node position), tris (list of node-position triples), pn / pe: lists of
property dicts (A,B,D,E,h,k13,k23) per node / element.
"""
import numpy as np

DOF = 5


def edges_of(tris):
    """{(i,j) sorted: [tri positions]} in order of appearance"""
    ed = {}
    for t, (a, b, c) in enumerate(tris):
        for i, j in ((a, b), (b, c), (c, a)):
            ed.setdefault((min(i, j), max(i, j)), []).append(t)
    return ed


def tri_grad(p):
    """area and constant gradient (2x3) of the linear triangle with corners p (3x2)"""
    (x1, y1), (x2, y2), (x3, y3) = p
    A2 = (x2 - x1)*(y3 - y1) - (x3 - x1)*(y2 - y1)
    g = np.array([[y2 - y3, y3 - y1, y1 - y2], [x3 - x2, x1 - x3, x2 - x1]])/A2
    return abs(A2)/2, g


def _avg(props, names, w):
    out = []
    for nm in names:
        out.append(sum(wi*np.asarray(p[nm], dtype=float) for wi, p in zip(w, props)))
    return out


def domains(st):
    """per edge: nodes, gradients (2 x nnodes), Ac and triangles"""
    xy = np.asarray(st['xyz'], dtype=float)[:, :2]
    N = len(xy)
    tg = [tri_grad(xy[list(t)]) for t in st['tris']]
    out = []
    for (i, j), ts in edges_of(st['tris']).items():
        G = {}
        Atot = sum(tg[t][0] for t in ts)
        for t in ts:
            A, g = tg[t]
            for k, n in enumerate(st['tris'][t]):
                G[n] = G.get(n, 0) + A/Atot*g[:, k]
        nodes = sorted(G)
        opp = [[n for n in st['tris'][t] if n not in (i, j)][0] for t in ts]
        out.append(dict(n1=i, n2=j, trias=ts, areas=[tg[t][0] for t in ts], nodes=nodes,
                        G=np.array([G[n] for n in nodes]).T, Ac=Atot/3, opp=opp))
    return out, N


def edge_props(st, d, pfn, names):
    if pfn:
        ps = [st['pn'][d['n1']], st['pn'][d['n2']]] + [st['pn'][o] for o in d['opp']]
        w = [4/9., 4/9., 1/9.] if len(d['opp']) == 1 else [5/12., 5/12., 1/12., 1/12.]
    else:
        ps = [st['pe'][t] for t in d['trias']]
        w = [a/sum(d['areas']) for a in d['areas']]
    return _avg(ps, names, w)


def _bmat(G, nn):
    """membrane-type strain operator from gradients: rows exx, eyy, gxy; columns (c1 c2) per node"""
    B = np.zeros((3, 2*nn))
    for k in range(nn):
        B[0, 2*k] = G[0, k]
        B[1, 2*k+1] = G[1, k]
        B[2, 2*k] = G[1, k]
        B[2, 2*k+1] = G[0, k]
    return B


def k0(st, pfn):
    ds, N = domains(st)
    K = np.zeros((N*DOF, N*DOF))
    for d in ds:
        A, B, D = edge_props(st, d, pfn, 'ABD')
        nn = len(d['nodes'])
        b = _bmat(d['G'], nn)
        ui = [n*DOF + c for n in d['nodes'] for c in (0, 1)]
        pi = [n*DOF + c for n in d['nodes'] for c in (3, 4)]
        K[np.ix_(ui, ui)] += d['Ac']*b.T.dot(A).dot(b)
        K[np.ix_(ui, pi)] += d['Ac']*b.T.dot(B).dot(b)
        K[np.ix_(pi, ui)] += d['Ac']*b.T.dot(B).dot(b)
        K[np.ix_(pi, pi)] += d['Ac']*b.T.dot(D).dot(b)
    return K


def kG(st, pfn, dvec):
    ds, N = domains(st)
    dvec = np.asarray(dvec, dtype=float)
    K = np.zeros((N*DOF, N*DOF))
    for d in ds:
        A, B = edge_props(st, d, pfn, 'AB')
        b = _bmat(d['G'], len(d['nodes']))
        ui = [n*DOF + c for n in d['nodes'] for c in (0, 1)]
        pi = [n*DOF + c for n in d['nodes'] for c in (3, 4)]
        Nxx, Nyy, Nxy = A.dot(b.dot(dvec[ui])) + B.dot(b.dot(dvec[pi]))
        wi = [n*DOF + 2 for n in d['nodes']]
        K[np.ix_(wi, wi)] += d['Ac']*d['G'].T.dot(np.array([[Nxx, Nxy], [Nxy, Nyy]])).dot(d['G'])
    return K


def dsg(a, b, c, d):
    """DSG shear operator of a triangle with origin node 1: 2 x 9 over (w, phix, phiy) of nodes 1, 2, 3"""
    A = (a*d - b*c)/2
    B = np.zeros((2, 9))
    B[:, 0:3] = np.array([[b - d, A, 0], [c - a, 0, A]])/(2*A)
    B[:, 3:6] = np.array([[d, a*d/2, b*d/2], [-c, -a*c/2, -b*c/2]])/(2*A)
    B[:, 6:9] = np.array([[-b, -b*c/2, -b*d/2], [a, a*c/2, a*d/2]])/(2*A)
    return abs(A), B


def _shear_add(K, nodes, B, Ac, C):
    ii = [n*DOF + c for n in nodes for c in (2, 3, 4)]
    K[np.ix_(ii, ii)] += Ac*B.T.dot(C).dot(B)


def _orient(xy, t):
    n1, n2, n3 = t
    u, v = xy[n2] - xy[n1], xy[n3] - xy[n1]
    return (n2, n1, n3) if u[0]*v[1] - u[1]*v[0] < 0 else (n1, n2, n3)


def k0s(st, pfn, method, alpha, mfa, defect=False):
    """transverse shear stiffness. defect=True: the recorded finding F1 of the edge-based method (see
    known_findings.json) is reproduced: in interior smoothing domains the z coordinate is taken as y in b1."""
    xyz = np.asarray(st['xyz'], dtype=float)
    xy = xyz[:, :2]
    N = len(xy)
    K = np.zeros((N*DOF, N*DOF))
    L = np.linalg.norm
    names = ['k13', 'k23', 'E', 'h']
    if method in ('cell-based', 'cell-based-no-smoothing'):
        for ti, t in enumerate(st['tris']):
            n = _orient(xy, t)
            p = [xy[k] for k in n]
            Ac, _ = tri_grad(p)
            ps, w = ([st['pn'][k] for k in n], [1/3.]*3) if pfn else ([st['pe'][ti]], [1.])
            k13, k23, E, h = _avg(ps, names, w)
            maxl = Ac**0.5 if mfa else max(L(p[i] - p[j]) for i, j in ((0, 1), (1, 2), (2, 0)))
            fac = 1/(1 + alpha*maxl**2/h**2)
            C = fac*np.diag([k13*E[1, 1], k23*E[0, 0]])
            if method == 'cell-based':
                mid = sum(p)/3
                B = np.zeros((2, 9))
                for i, j in ((0, 1), (1, 2), (2, 0)):
                    (a, b), (c, d) = p[i] - mid, p[j] - mid
                    As, b9 = dsg(a, b, c, d)
                    for k in range(3):
                        B[:, 3*k:3*k+3] += As/Ac*b9[:, 0:3]/3
                    B[:, 3*i:3*i+3] += As/Ac*b9[:, 3:6]
                    B[:, 3*j:3*j+3] += As/Ac*b9[:, 6:9]
            else:
                (a, b), (c, d) = p[1] - p[0], p[2] - p[0]
                _, B = dsg(a, b, c, d)
            _shear_add(K, n, B, Ac, C)
        return K
    ds, N = domains(st)
    for dm in ds:
        k13, k23, E, h = edge_props(st, dm, pfn, names)
        t1 = st['tris'][dm['trias'][0]]
        mid1 = xy[list(t1)].mean(axis=0)
        n1, n2 = dm['n1'], dm['n2']
        u, v = xy[n2] - xy[n1], mid1 - xy[n1]
        if u[0]*v[1] - u[1]*v[0] < 0:
            n1, n2 = n2, n1
        Ac = dm['Ac']
        mids = [xy[list(st['tris'][t])].mean(axis=0) for t in dm['trias']]
        le = [L(xy[k] - m) for m in mids for k in (n1, n2)] + [L(xy[n1] - xy[n2])]
        maxl = Ac**0.5 if mfa else max(le)
        fac = 1/(1 + alpha*maxl**2/h**2)
        o1 = dm['opp'][0]
        (a1, b1), (c1, d1) = xy[n1] - mid1, xy[n2] - mid1
        if len(dm['trias']) == 1:
            C = fac*np.diag([k13*E[1, 1], k23*E[0, 0]])
            nodes = [n1, n2, o1]
            A1, b9 = dsg(a1, b1, c1, d1)
            B = np.zeros((2, 9))
            for k in range(3):
                B[:, 3*k:3*k+3] += b9[:, 0:3]/3
            B[:, 0:3] += b9[:, 3:6]
            B[:, 3:6] += b9[:, 6:9]
            _shear_add(K, nodes, B, Ac, C)
        else:
            E45 = min(k13, k23)*E[0, 1]
            C = fac*np.array([[k13*E[1, 1], E45], [E45, k23*E[0, 0]]])
            o2 = dm['opp'][1]
            mid2 = mids[1]
            nodes = [n1, n2, o1, o2]
            B = np.zeros((2, 12))
            w1, w2 = [a/sum(dm['areas']) for a in dm['areas']]
            if defect:
                # b1 used y1 := z; all terms of sub-triangle 1 use the same (true) area
                B1 = np.zeros((2, 9))
                A = (a1*d1 - b1*c1)/2
                bb = xyz[n1][2] - mid1[1]
                a, b, c, d = a1, bb, c1, d1
                B1[:, 0:3] = np.array([[b - d, A, 0], [c - a, 0, A]])/(2*A)
                B1[:, 3:6] = np.array([[d, a*d/2, b*d/2], [-c, -a*c/2, -b*c/2]])/(2*A)
                B1[:, 6:9] = np.array([[-b, -b*c/2, -b*d/2], [a, a*c/2, a*d/2]])/(2*A)
                b9 = B1
            else:
                _, b9 = dsg(a1, b1, c1, d1)
            for k in (0, 1, 2):
                B[:, 3*k:3*k+3] += w1*b9[:, 0:3]/3
            B[:, 0:3] += w1*b9[:, 3:6]
            B[:, 3:6] += w1*b9[:, 6:9]
            (a2, b2), (c2, d2) = mid2 - xy[n1], xy[n2] - xy[n1]
            _, c9 = dsg(a2, b2, c2, d2)
            B[:, 0:3] += w2*c9[:, 0:3]
            for k in (0, 1, 3):
                B[:, 3*k:3*k+3] += w2*c9[:, 3:6]/3
            B[:, 3:6] += w2*c9[:, 6:9]
            _shear_add(K, nodes, B, Ac, C)
    return K
