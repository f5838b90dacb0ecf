"""Loading the verified code.

The modules of ngmix are read from the repository's current working tree on
every run.  Their syntax trees are changed mechanically, the same way for
every function, and compiled; nothing is written by hand:

  * `for T in E: B [else: O]` becomes a `while` over a loop object, which
    unrolls concrete iterables and applies the invariant rule to symbolic ones
  * `while C: B` becomes `while H and C: B`, where H ends a path that comes back
    to the loop head in a state it was already in (see loops.py)
  * `a % b` goes through a helper (so that error messages may mention symbolic
    values)
  * each function notes its name when entered (evidence)
  * import of numpy / numba goes to the shims, and float, int, isinstance,
    range, len, enumerate, zip, sorted are shimmed

Everything else (statements, calls, classes, exceptions, attribute access,
defaults) is executed by CPython itself, unchanged.
"""
import ast
import builtins
import importlib
import importlib.abc
import importlib.machinery
import importlib.util
import numbers
import os
import sys

from . import liveness

REPO = os.environ.get('NGMIX_REPO', '/repo')


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.n = 0
        self.path = []
        self.live = {}

    # scopes
    def _fn(self, node):
        self.path.append(node.name)
        self.live.update(liveness.analyse(node))
        self.generic_visit(node)
        name = '%s.%s' % (self.mod, '.'.join(self.path))
        self.path.pop()
        call = ast.Expr(ast.Call(ast.Name('__vc_enter__', ast.Load()),
                                 [ast.Constant(name)], []))
        body = node.body
        i = 0
        if body and isinstance(body[0], ast.Expr) and isinstance(body[0].value, ast.Constant) \
                and isinstance(body[0].value.value, str):
            i = 1
        node.body = body[:i] + [call] + body[i:]
        return node

    def visit_FunctionDef(self, node):
        return self._fn(node)

    def visit_ClassDef(self, node):
        self.path.append(node.name)
        self.generic_visit(node)
        self.path.pop()
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod):
            return ast.Call(ast.Name('__vc_mod__', ast.Load()), [node.left, node.right], [])
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        names = set()
        for x in [node.target] + node.body:
            for y in ast.walk(x):
                if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) \
                        and not y.id.startswith('__vl'):
                    names.add(y.id)
        names = sorted(names)
        self.n += 1
        lp = '__vl%d' % self.n
        site = '%s:%s#%d' % (self.mod, '.'.join(self.path), self.n)

        def name(n, c):
            return ast.Name(n, c)

        def restore():
            out = []
            for x in names:
                new = ast.Attribute(name(lp, ast.Load()), 'new', ast.Load())
                out.append(ast.If(
                    ast.Compare(ast.Constant(x), [ast.In()], [new]),
                    [ast.Assign([name(x, ast.Store())],
                                ast.Subscript(new, ast.Constant(x), ast.Load()))], []))
            return [ast.If(ast.Attribute(name(lp, ast.Load()), 'new', ast.Load()), out, [])] if out else []

        mk = ast.Assign([name(lp, ast.Store())],
                        ast.Call(name('__vc_loop__', ast.Load()),
                                 [node.iter, ast.Constant(site), ast.Constant(tuple(names))], []))
        step = ast.Call(ast.Attribute(name(lp, ast.Load()), 'step', ast.Load()), [], [])
        bind = ast.Assign([node.target],
                          ast.Attribute(name(lp, ast.Load()), 'item', ast.Load()))
        w = ast.While(step, restore() + [bind] + node.body, restore() + node.orelse)
        out = [mk, w]
        for x in out:
            ast.copy_location(x, node)
            ast.fix_missing_locations(x)
        return out



    def visit_While(self, node):
        live = self.live.get(id(node))
        stored = sorted({y.id for x in node.body for y in ast.walk(x)
                         if isinstance(y, ast.Name) and not isinstance(y.ctx, ast.Load) and not y.id.startswith('__v')})
        self.generic_visit(node)
        self.n += 1
        lp = '__vl%d' % self.n
        site = '%s:%s#%d' % (self.mod, '.'.join(self.path), self.n)
        mk = ast.Assign([ast.Name(lp, ast.Store())],
                        ast.Call(ast.Name('__vc_while__', ast.Load()),
                                 [ast.Constant(site), ast.Constant(None if live is None else tuple(sorted(live))),
                                  ast.Constant(tuple(stored))], []))
        head = ast.Call(ast.Attribute(ast.Name(lp, ast.Load()), 'head', ast.Load()), [], [])
        if node.orelse:
            node.test = ast.BoolOp(ast.And(), [head, node.test])
        else:
            # the head of the loop first, then the variables it made arbitrary, then the condition
            def new():
                return ast.Attribute(ast.Name(lp, ast.Load()), 'new', ast.Load())
            back = [ast.If(ast.Compare(ast.Constant(x), [ast.In()], [new()]),
                           [ast.Assign([ast.Name(x, ast.Store())], ast.Subscript(new(), ast.Constant(x), ast.Load()))], [])
                    for x in stored]
            back = [ast.If(new(), back, [])] if back else []
            node = ast.copy_location(ast.While(head, back + [ast.If(node.test, [], [ast.Break()])] + node.body, []), node)
            node.body[len(back)].body = [ast.Pass()]
        for x in (mk, node):
            ast.copy_location(x, node)
            ast.fix_missing_locations(x)
        return [mk, node]


def rewrite(src, modname, filename):
    tree = ast.parse(src, filename)
    tree = Rewriter(modname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, 'exec')


class Loader(importlib.abc.Loader):
    def __init__(self, fullname, path, pkg):
        self.fullname = fullname
        self.path = path
        self.pkg = pkg

    def create_module(self, spec):
        return None

    def exec_module(self, module):
        with open(self.path) as f:
            src = f.read()
        code = rewrite(src, self.fullname, self.path)
        module.__file__ = self.path
        module.__dict__['__builtins__'] = make_builtins()
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, root):
        self.root = root

    def find_spec(self, fullname, path, target=None):
        if fullname != 'ngmix' and not fullname.startswith('ngmix.'):
            return None
        base = os.path.join(self.root, *fullname.split('.'))
        init = os.path.join(base, '__init__.py')
        if os.path.exists(init):
            ld = Loader(fullname, init, True)
            spec = importlib.machinery.ModuleSpec(fullname, ld, origin=init, is_package=True)
            spec.submodule_search_locations = [base]
            return spec
        f = base + '.py'
        if os.path.exists(f):
            return importlib.machinery.ModuleSpec(fullname, Loader(fullname, f, False), origin=f)
        return None


_BUILTINS = None


def make_builtins():
    global _BUILTINS
    if _BUILTINS is None:
        from . import shims
        d = dict(builtins.__dict__)
        d.update(shims.BUILTINS)
        d['__import__'] = _import
        _BUILTINS = d
    return _BUILTINS


def _import(name, globals=None, locals=None, fromlist=(), level=0):
    from . import shims
    if level == 0:
        m = shims.MODULES.get(name)
        if m is not None:
            if fromlist or '.' not in name:
                return m
            return shims.MODULES[name.split('.')[0]]
    return builtins.__import__(name, globals, locals, fromlist, level)


def install(root=None):
    for k in list(sys.modules):
        if k == 'ngmix' or k.startswith('ngmix.'):
            del sys.modules[k]
    sys.meta_path.insert(0, Finder(root or REPO))
