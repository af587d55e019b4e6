"""Matrix-printing calls: generation and materialisation."""
import itertools

SYMS = ['x', 'y', 'z', 'a', 'b', 'c', 'nx1', 'le1', 'A11', 'f12', 'Ac', 'alpha', 'x1', 'A1', 'zy']
NAMES = ['k0', 'm', 'kG', 'K_s', 'Ke', 'mat1', 'k0s', 'k0r', 'zz']


def gen_expr(rng, depth=0):
    r = rng.random()
    if depth > 2 or r < 0.25:
        return rng.choice(SYMS)
    if r < 0.35:
        if rng.random() < 0.2:
            return rng.choice(['0.25', '1.5', '2.0', '1e-3', '0.333333333333333'])
        return str(rng.choice([1, 2, 3, 7])) if rng.random() < 0.6 else 'R(%d,%d)' % (rng.randint(1, 5), rng.choice([2, 3, 6]))
    if r < 0.38:
        return rng.choice(['%s**1.5', '%s**R(1,3)', '%s**(-2)', '2**%s', '1/%s', '%s**2.25', '%s**R(-3,2)', '%s**12', '%s**10',
                           '%s**4', '%s**y', '-%s', '-%s**2', '1/%s**3', 'sin(2*%s)**2', 'cos(%s + a)**3']) % rng.choice(SYMS)
    if r < 0.6:
        return '(%s %s %s)' % (gen_expr(rng, depth + 1), rng.choice('++-'), gen_expr(rng, depth + 1))
    if r < 0.82:
        return '%s*%s' % (gen_expr(rng, depth + 1), gen_expr(rng, depth + 1))
    if r < 0.9:
        return '(%s + %s)**%d' % (gen_expr(rng, depth + 1), rng.choice(SYMS), rng.choice([2, 2, 3, 4]))
    if r < 0.95:
        return '(%s)**%d' % (gen_expr(rng, depth + 1), rng.choice([2, 2, 3, 4]))
    return '%s(%s)' % (rng.choice(['sin', 'cos', 'sqrt', 'exp']), rng.choice(SYMS))


def gen_matrix(rng, rows=None, cols=None):
    rows = rows or rng.choice([1, 2, 2, 3, 4, 6])
    cols = cols or rng.choice([1, 2, 2, 3, 4, 6])
    common = gen_expr(rng)
    out = []
    for i in range(rows):
        row = []
        for j in range(cols):
            if rng.random() < 0.3:
                row.append('0')
            elif rng.random() < 0.4:
                row.append('%s*(%s)' % (common, gen_expr(rng)))
            elif rng.random() < 0.35:
                row.append(' + '.join('*'.join(rng.sample(SYMS[:7], rng.choice([1, 2, 2, 3]))) for _ in range(rng.randint(3, 7))))
            else:
                row.append(gen_expr(rng))
        out.append(row)
    return out


def thin(rng, mat):
    """mostly zeros and short entries: quick to print"""
    return [[x if rng.random() < 0.15 else rng.choice(['0', '0', 'a', 'x*y']) for x in row] for row in mat]


def gen_mat(rng):
    """also matrices of several nodes"""
    if rng.random() > 0.1:
        return gen_matrix(rng)
    n = rng.choice([8, 9, 10, 12, 15])
    return thin(rng, gen_matrix(rng, n, n if rng.random() < 0.7 else rng.choice([2, 3, 6])))


def gen_print(rng, name=None, file=False):
    fn = rng.choice(['sparse', 'dense', 'array', 'array'])
    op = dict(op='print', fn=fn, name=name or rng.choice(NAMES), kw={})
    kw = op['kw']
    kw['print_file'] = bool(file)
    if rng.random() < 0.3:
        kw['header'] = rng.choice(['# header', 'cdef f(x):', '# two\n# lines', '# caf\u00e9'] if rng.random() < 0.3
                                  else ['# header', 'cdef f(x):'])
    if fn in ('sparse', 'array') and rng.random() < 0.4:
        kw['sufix'] = rng.choice(['s1', 'num', '2', 'a_b'])
    rows = cols = None
    sparse = False
    if fn in ('sparse', 'dense'):
        if rng.random() < 0.4:
            n = kw['dofpernode'] = rng.choice([2, 3])
            rows = cols = rng.choice([4, 6]) if rng.random() < 0.7 else n*rng.choice([3, 4, 5])
            sparse = rows > 6
        if rng.random() < 0.4:
            op['subs'] = gen_subs(rng)
    if fn == 'sparse' and rng.random() < 0.3:
        kw['is_symmetric'] = True
    if fn == 'array':
        if rng.random() < 0.6:
            kw['use_cse'] = True
        if rng.random() < 0.4:
            kw['order'] = rng.choice(['C', 'F'])
        if rng.random() < 0.3:
            kw['op'] = rng.choice(['=', '+=', '-='])
    if rng.random() < 0.25:
        kw['pow_by_mul'] = False
    if rng.random() < 0.3:
        op['collect'] = gen_collect(rng)
    op['mat'] = gen_matrix(rng, rows, cols)
    if sparse:
        op['mat'] = thin(rng, op['mat'])
    return op


def gen_collect(rng):
    c = rng.sample(SYMS[:6], rng.choice([1, 2, 3, 4, 5]))
    if rng.random() < 0.5:
        c.sort()
    if rng.random() < 0.15:
        c.append(c[0])
    return c


def gen_subs(rng):
    n = rng.choice([1, 2, 3, 3, 5])
    out = [[e, 'S%d' % k] for k, e in enumerate(rng.sample(['x + y', 'x*y', 'a', 'b**2', 'a*b', 'x', 'nx1*le1', 'sin(x)',
                                                            'alpha', 'A11', 'y', 'c', 'z'], n))]
    if rng.random() < 0.3:
        rng.shuffle(out)
    if rng.random() < 0.3:          # several expressions become the same symbol
        for x in out:
            if rng.random() < 0.5:
                x[1] = 'S0'
    return out


def env():
    import sympy
    e = {s: sympy.Symbol(s) for s in SYMS}
    e.update(sin=sympy.sin, cos=sympy.cos, sqrt=sympy.sqrt, exp=sympy.exp, R=sympy.Rational)
    return e


def parse(text, e):
    import sympy
    return sympy.sympify(eval(text, {'__builtins__': {}}, e))


def objects(op):
    """the arguments of the call, made anew"""
    import sympy
    e = env()
    m = sympy.Matrix([[parse(t, e) for t in row] for row in op['mat']])
    kw = dict(op['kw'])
    if 'subs' in op:
        kw['subs'] = {parse(t, e): sympy.Symbol(s) for t, s in op['subs']}
    if 'collect' in op:
        kw['collect_for'] = [e[s] for s in op['collect']]
    return m, kw


def function(op):
    from meshless.dev import sympytools
    return getattr(sympytools, 'mprint_as_' + op['fn'])


def call(op, m, kw):
    return function(op)(m, op['name'], **kw)


def build(op, interp=None):
    if 'mi' in op:
        m, kw = interp.get_pool().args(op)
    else:
        m, kw = objects(op)
    return lambda: call(op, m, kw)


class Pool(object):
    """matrices, substitutions and symbol lists that several calls are given"""

    def __init__(self, spec):
        import sympy
        self.e = e = env()
        self.mats = [sympy.Matrix([[parse(t, e) for t in row] for row in m]) for m in spec['mats']]
        self.subs = [{parse(t, e): sympy.Symbol(s) for t, s in d} for d in spec['subs']]
        self.colls = [[e[s] for s in c] for c in spec['colls']]
        self.shadow = self.snap()

    def snap(self):
        return ([(type(m), m.shape, list(m)) for m in self.mats], [list(d.items()) for d in self.subs],
                [list(c) for c in self.colls])

    def unchanged(self):
        return self.snap() == self.shadow

    def args(self, op):
        kw = dict(op['kw'])
        if op.get('si') is not None:
            kw['subs'] = self.subs[op['si']]
        if op.get('ci') is not None:
            kw['collect_for'] = self.colls[op['ci']]
        return self.mats[op['mi']], kw


def edit(pool, op):
    if op['what'] == 'mat':
        pool.mats[op['i']][op['r'], op['c']] = parse(op['to'], pool.e)
    elif op['what'] == 'new':           # the old matrix is dropped, another one takes its place
        import sympy
        pool.mats[op['i']] = None
        if op.get('gc'):                # and nothing else keeps its entries: their memory is reused
            import gc
            from sympy.core.cache import clear_cache
            pool.shadow = None
            clear_cache()
            gc.collect()
        pool.mats[op['i']] = sympy.Matrix([[parse(t, pool.e) for t in row] for row in op['to']])
    elif op['what'] == 'subs':
        import sympy
        d = pool.subs[op['i']]
        d[parse(op['key'], pool.e)] = sympy.Symbol(op['to'])
    elif op['what'] == 'coll':
        pool.colls[op['i']][:] = [pool.e[x] for x in op['to']]
    pool.shadow = pool.snap()


def follow(spec, op):
    """the same on the specification of the pool"""
    if op['what'] == 'mat':
        spec['mats'][op['i']][op['r']][op['c']] = op['to']
    elif op['what'] == 'new':
        spec['mats'][op['i']] = [list(r) for r in op['to']]
    elif op['what'] == 'subs':
        d = spec['subs'][op['i']]
        for x in d:
            if x[0] == op['key']:
                x[1] = op['to']
                return
        d.append([op['key'], op['to']])
    elif op['what'] == 'coll':
        spec['colls'][op['i']] = list(op['to'])


def resolve(spec, op):
    """the call with its arguments written out"""
    out = dict(op='print', fn=op['fn'], name=op['name'], kw=op['kw'], mat=[list(r) for r in spec['mats'][op['mi']]])
    if op.get('si') is not None:
        out['subs'] = [list(x) for x in spec['subs'][op['si']]]
    if op.get('ci') is not None:
        out['collect'] = list(spec['colls'][op['ci']])
    return out


def filename(op):
    suf = op['kw'].get('sufix')
    return 'print_%s.txt' % op['name'] if suf is None else 'print_%s_%s.txt' % (op['name'], suf)


def solo(op):
    """text of the call alone in a pristine process"""
    op = dict(op, kw=dict(op['kw'], print_file=False))
    m, kw = objects(op)
    try:
        return None, call(op, m, kw)
    except Exception as e:
        return [type(e).__name__, str(e)[:200]], None


# ---- what a printed text says ---------------------------------------------------------------------------------

class Unreadable(Exception):
    pass


def point(seed):
    """values of all symbols"""
    import random
    r = random.Random(seed)
    return {s: r.uniform(0.6, 1.7) for s in SYMS}


def evaluator(vals):
    import math
    e = dict(vals)
    e.update(sin=math.sin, cos=math.cos, sqrt=math.sqrt, exp=math.exp, log=math.log, pi=math.pi, E=math.e, R=lambda a, b: a/b,
             pow=pow)
    return e


def number(text, e):
    """value of a printed expression"""
    try:
        v = eval(text, {'__builtins__': {}}, e)
        return float(v)
    except Unreadable:
        raise
    except Exception as x:
        raise Unreadable('%s: %s in %r' % (type(x).__name__, x, text[:120]))


def read(text, op):
    """(entries {position: [expressions to be summed]}, definitions [(symbol, expression)], announced number, declared
    symbols). A position is (row, column) or a linear index."""
    import re
    name, kw = op['name'], op['kw']
    suf = kw.get('sufix')
    full = name if suf is None else '%s_%s' % (name, suf)
    head = (kw.get('header') or '').split('\n') if kw.get('header') else []
    lines = text.split('\n')
    for h in head:
        if h not in lines:
            raise Unreadable('no header')
        lines.remove(h)
    entries, defs, num, decl, cur = {}, [], None, [], None
    dof = kw.get('dofpernode')
    count = 0
    row = col = None
    started = False
    N = re.escape(name)

    def place(t, what):
        m = re.match(r'^i(\d+)\*dof\+(\d+)$', t) if dof else re.match(r'^%s\+?(\d+)$' % what, t)
        if not m:
            raise Unreadable('index %r' % t)
        if dof:
            if not 0 <= int(m.group(2)) < dof:
                raise Unreadable('index %r' % t)
            return (int(m.group(1)) - 1)*dof + int(m.group(2))
        return int(m.group(1))

    def begin(pos, rest):
        if pos in entries:
            raise Unreadable('entry %s printed twice' % (pos,))
        entries[pos] = []
        if rest:
            entries[pos].append(rest)
        return pos
    if '# ' + full not in lines:
        raise Unreadable('no name')
    for l in lines:
        m = re.match(r'^# %s_num=(\d+)$' % re.escape(full), l)
        if m:
            num = int(m.group(1))
            started = True
            continue
        if l == '# ' + full:
            started = True
            continue
        if not l.strip() or l in ('subs', '# subs', '# cdefs') or l.startswith('#   collected for '):
            continue
        if not started:
            d = re.match(r'^(?:# )?(\w+) = (.*)$', l)
            if d:
                defs.append((d.group(1), d.group(2)))
                continue
            if l.startswith('cdef double '):
                decl += [s.strip() for s in l[len('cdef double '):].split(',')]
                continue
            raise Unreadable('line %r' % l)
        if l.startswith('    '):
            if cur is None:
                raise Unreadable('line %r' % l)
            entries[cur].append(l.strip())
            continue
        if op['fn'] == 'sparse':
            if l == 'c += 1':
                count += 1
                row = col = cur = None
                continue
            m = re.match(r'^%sr\[c\] = (.*)$' % N, l)
            if m and row is None:
                row = place(m.group(1), 'row')
                continue
            m = re.match(r'^%sc\[c\] = (.*)$' % N, l)
            if m and col is None:
                col = place(m.group(1), 'col')
                continue
            m = re.match(r'^%sv\[c\] \+=(.*)$' % N, l)
            if m and row is not None and col is not None:
                cur = begin((row, col), m.group(1).strip())
                row = col = None
                continue
        elif op['fn'] == 'dense':
            m = re.match(r'^%s\[([^,\]]*), ([^,\]]*)\] \+=(.*)$' % N, l)
            if m:
                cur = begin((place(m.group(1), ''), place(m.group(2), '')), m.group(3).strip())
                count += 1
                continue
        else:
            m = re.match(r'^%s\[pos\+(\d+)\] (\S*=)(.*)$' % N, l)
            if m:
                if m.group(3).strip() and m.group(2) != kw.get('op', '+='):
                    raise Unreadable('operator in %r' % l)
                cur = begin(int(m.group(1)), m.group(3).strip())
                count += 1
                continue
        raise Unreadable('line %r' % l)
    if count != len(entries):
        raise Unreadable('%d entries begun, %d complete' % (count, len(entries)))
    return entries, defs, num, decl


def check_value(text, req, seed):
    """None, or how the printed text differs from the matrix"""
    vals = point(seed)
    e = evaluator(vals)
    mat = req['mat']
    nr, nc = len(mat), len(mat[0])
    try:
        entries, defs, num, decl = read(text, req)
        if num != len(entries):
            return '%s entries announced, %d printed' % (num, len(entries))
        env = dict(e)
        known = set()
        if 'subs' in req:
            by = {}
            for k, s in req['subs']:
                by.setdefault(s, []).append(number(k, e))
            if any(max(v) - min(v) > 1e-9*max(map(abs, v)) for v in by.values()):
                return None                  # one symbol for different things: the value is not determined
            env.update((s, v[0]) for s, v in by.items())
            used = set(w for v in entries.values() for t in v for w in words(t))
            for s, t in defs:
                if s not in by:
                    return 'definition of %s' % s
                if not close(number(t, e), by[s][0], 1.):
                    return '%s is said to be %s' % (s, t)
                known.add(s)
            for s in by:
                if s in used and s not in known:
                    return '%s is not defined' % s
        else:
            for s, t in defs:
                env[s] = number(t, env)
                if s not in decl:
                    return '%s is not declared' % s
        got = {}
        for p, ts in entries.items():
            if not isinstance(p, tuple):
                p = divmod(p, nc) if req['kw'].get('order', 'C') == 'C' else tuple(reversed(divmod(p, nr)))
            if not (0 <= p[0] < nr and 0 <= p[1] < nc):
                return 'entry %s printed' % (p,)
            got[tuple(p)] = sum(number(t, env) for t in ts)
        for i in range(nr):
            for j in range(nc):
                want = number(mat[i][j], e)
                if req['kw'].get('is_symmetric') and i > j:
                    if (i, j) in got:
                        return 'entry (%d,%d) of the lower triangle printed' % (i, j)
                    continue
                if not close(got.get((i, j), 0.), want, magnitude(mat[i][j], e)):
                    return 'entry (%d,%d): %.12g instead of %.12g' % (i, j, got.get((i, j), 0.), want)
    except Unreadable as x:
        return str(x)
    return None


def words(t):
    import re
    return re.findall(r'[A-Za-z_]\w*', t)


def magnitude(text, e):
    import re
    return abs(number(re.sub(r'(?<!e)-', '+', text), e))


def close(a, b, mag):
    return abs(a - b) <= 1e-9*max(abs(a), abs(b), mag, 1e-12)
