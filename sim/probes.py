"""Loads meshless with a probe call before every statement of every function, and between evaluating and storing the
value of every assignment to something another thread may reach (attributes, globals).

The files under /repo are not changed: the probes are inserted into the syntax tree when the module is imported into a
simulation process. Outside a simulated run a probe does nothing.
"""
import ast
import builtins
import importlib.machinery
import os
import sys

from . import base

SITES = []          # site id -> (file, function, line, weight, faults allowed)
CLEANUP = set()     # (file, line) of handlers, finally clauses and context managers: no fault is injected below them
GUARDED = set()     # (file, line) of statements whose failure the code handles: faults are tried there more often
CURRENT = [None]    # the running simulation
NAME = '__sim_probe__'
VALUE = '__sim_value__'


def probe(i):
    s = CURRENT[0]
    if s is not None:
        s.on_probe(i)


def value(i, v):
    """the value of an assignment to shared state: evaluated, not stored yet"""
    s = CURRENT[0]
    if s is not None:
        s.on_probe(i)
    return v


def local_names(fn):
    a = fn.args
    out = set(x.arg for x in a.args + a.kwonlyargs + a.posonlyargs)
    out |= set(x.arg for x in (a.vararg, a.kwarg) if x is not None)
    glob = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
    return out - glob


class Insert(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.stack = []
        self.nofault = 0
        self.locals = [set()]

    def visit_FunctionDef(self, node):
        self.stack.append(node.name)
        save, self.nofault = self.nofault, int(node.name in ('__enter__', '__exit__', '__del__'))
        if self.nofault:
            self.cleanup(node.body)
        self.locals.append(local_names(node))
        node.body = self.block(node.body, doc=True)
        self.locals.pop()
        self.nofault = save
        self.stack.pop()
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        self.stack.append(node.name)
        node.body = [self.visit(n) for n in node.body]
        self.stack.pop()
        return node

    def cleanup(self, body):
        for n in body:
            CLEANUP.update((self.fname, k) for k in range(n.lineno, n.end_lineno + 1))

    def site(self, node):
        # "resource taken; try: ... finally:" counts as one step
        guard = isinstance(node, ast.Try) and bool(node.finalbody)
        w = 0.1 if isinstance(node, ast.AugAssign) else 1.
        SITES.append((self.fname, '.'.join(self.stack), node.lineno, w, self.nofault == 0 and not guard))
        call = ast.Expr(ast.Call(ast.Name(NAME, ast.Load()), [ast.Constant(len(SITES) - 1)], []))
        for n in ast.walk(call):
            n.lineno = n.end_lineno = node.lineno
            n.col_offset = n.end_col_offset = node.col_offset
        return call

    def shared(self, t):
        """can this assignment target be reached by another thread?"""
        if isinstance(t, (ast.Tuple, ast.List)):
            return any(self.shared(x) for x in t.elts)
        if isinstance(t, ast.Starred):
            return self.shared(t.value)
        attr = False
        while isinstance(t, (ast.Attribute, ast.Subscript)):
            attr = attr or isinstance(t, ast.Attribute)
            t = t.value
        if isinstance(t, ast.Name):
            return attr or t.id not in self.locals[-1]
        return True

    def block(self, body, doc=False):
        out = []
        for k, n in enumerate(body):
            if doc and k == 0 and isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant) and \
                    isinstance(n.value.value, str):
                out.append(n)
                continue
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                out.append(n)
                continue
            out.append(self.site(n))
            out.append(self.inner(n))
        return out

    def inner(self, n):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return self.visit(n)
        if isinstance(n, (ast.Assign, ast.AugAssign)):
            if any(self.shared(t) for t in (n.targets if isinstance(n, ast.Assign) else [n.target])):
                SITES.append((self.fname, '.'.join(self.stack), n.lineno, 1., self.nofault == 0))
                call = ast.Call(ast.Name(VALUE, ast.Load()), [ast.Constant(len(SITES) - 1), n.value], [])
                n.value = ast.fix_missing_locations(ast.copy_location(call, n.value))
            return n
        if isinstance(n, ast.Try):
            for c in n.body:
                GUARDED.update((self.fname, k) for k in range(c.lineno, c.end_lineno + 1))
        for f in ('body', 'orelse'):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                setattr(n, f, self.block(b))
        for h in getattr(n, 'handlers', []):
            self.nofault += 1
            self.cleanup(h.body)
            h.body = self.block(h.body)
            self.nofault -= 1
        if getattr(n, 'finalbody', None):
            self.nofault += 1
            self.cleanup(n.finalbody)
            n.finalbody = self.block(n.finalbody)
            self.nofault -= 1
        for c in getattr(n, 'cases', []):
            c.body = self.block(c.body)
        return n


def weight(kind, site):
    if kind == 'line':
        return SITES[site][3]*(8. if (SITES[site][0], SITES[site][2]) in GUARDED else 1.)
    code, off = site
    for a, b, line in code.co_lines():
        if a <= off < b:
            return 8. if (code.co_filename, line) in GUARDED else 1.
    return 1.


class Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        tree = ast.parse(self.get_data(path), path)
        if '.tests' not in fullname:
            t = Insert(path)
            for k, n in enumerate(tree.body):
                tree.body[k] = t.visit(n) if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)) else \
                    self.toplevel(t, n)
            ast.fix_missing_locations(tree)
        return compile(tree, path, 'exec', dont_inherit=True)

    def toplevel(self, t, n):
        # functions defined inside if/try at module level
        for f in ('body', 'orelse', 'finalbody'):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for i, c in enumerate(b):
                    if isinstance(c, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                        b[i] = t.visit(c)
                    else:
                        self.toplevel(t, c)
        for h in getattr(n, 'handlers', []):
            self.toplevel(t, h)
        return n


class Finder(object):
    def __init__(self, root):
        self.root = root

    def find_spec(self, name, path=None, target=None):
        if name != 'meshless' and not name.startswith('meshless.'):
            return None
        spec = importlib.machinery.PathFinder.find_spec(name, path if path is not None else [self.root], target)
        if spec is not None and isinstance(spec.loader, importlib.machinery.SourceFileLoader):
            spec.loader = Loader(spec.loader.name, spec.loader.path)
        return spec


def install():
    setattr(builtins, NAME, probe)
    setattr(builtins, VALUE, value)
    sys.meta_path.insert(0, Finder(os.path.realpath(base.REPO)))
