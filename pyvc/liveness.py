"""Live local variables at the heads of `while` loops.

A backward data-flow analysis over the syntax tree of one function.  A name is
live at a loop head when some path from there may read it before assigning it.
The loop rule of loops.py compares only live variables.  Everything the
analysis does not understand makes every name live."""
import ast


class Giveup(Exception):
    pass


def loads(x):
    out = set()
    for y in ast.walk(x):
        if isinstance(y, ast.Name) and not isinstance(y.ctx, ast.Store):
            out.add(y.id)
    return out


def kills(t):
    if isinstance(t, ast.Name):
        return {t.id}
    if isinstance(t, (ast.Tuple, ast.List)):
        s = set()
        for y in t.elts:
            s |= kills(y)
        return s
    return set()


class Live(object):
    def __init__(self, fn):
        self.at = {}
        self.always = set()
        for y in ast.walk(fn):
            if y is not fn and isinstance(y, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef, ast.ClassDef)):
                for z in ast.walk(y):
                    if isinstance(z, ast.Name):
                        self.always.add(z.id)
            if isinstance(y, (ast.Global, ast.Nonlocal)):
                self.always |= set(y.names)
        for y in ast.walk(fn):
            if isinstance(y, ast.Name) and y.id in ('locals', 'exec', 'eval', 'vars'):
                raise Giveup()
        self.block(fn.body, set(), None, None, set())

    def block(self, body, out, brk, cont, exc):
        for s in reversed(body):
            out = self.stmt(s, out, brk, cont, exc) | exc
        return out

    def stmt(self, s, out, brk, cont, exc):
        if isinstance(s, ast.Assign):
            k = set()
            u = loads(s.value)
            for t in s.targets:
                k |= kills(t)
                u |= loads(t)
            return (out - k) | u
        if isinstance(s, ast.AnnAssign):
            return (out - (kills(s.target) if s.value is not None else set())) | loads(s)
        if isinstance(s, ast.AugAssign):
            u = loads(s.target) | loads(s.value)
            if isinstance(s.target, ast.Name):
                u.add(s.target.id)
            return out | u
        if isinstance(s, (ast.Expr, ast.Assert, ast.Delete)):
            return out | loads(s)
        if isinstance(s, (ast.Pass, ast.Import, ast.ImportFrom, ast.Global, ast.Nonlocal)):
            return out
        if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
            return out | loads(s)
        if isinstance(s, ast.Return):
            return loads(s)
        if isinstance(s, ast.Raise):
            return loads(s) | exc
        if isinstance(s, ast.Break):
            return set(brk)
        if isinstance(s, ast.Continue):
            return set(cont)
        if isinstance(s, ast.If):
            return loads(s.test) | self.block(s.body, out, brk, cont, exc) | self.block(s.orelse, out, brk, cont, exc)
        if isinstance(s, (ast.While, ast.For)):
            end = self.block(s.orelse, out, brk, cont, exc)
            if isinstance(s, ast.While) and isinstance(s.test, ast.Constant) and s.test.value:
                end = set()
            head = set()
            while True:
                if isinstance(s, ast.While):
                    new = loads(s.test) | self.block(s.body, head, out, head, exc) | end | exc
                else:
                    new = (self.block(s.body, head, out, head, exc) - kills(s.target)) | loads(s.target) | end | exc
                new |= head
                if new == head:
                    break
                head = new
            self.at[id(s)] = head | self.always
            return head | (loads(s.iter) if isinstance(s, ast.For) else set())
        if isinstance(s, ast.With):
            u = self.block(s.body, out, brk, cont, exc)
            for i in s.items:
                u |= loads(i.context_expr)
            return u
        if isinstance(s, ast.Try):
            if s.finalbody:
                # any way out of the body passes here
                out = self.block(s.finalbody, out | exc | (brk or set()) | (cont or set()), brk, cont, exc)
                exc = exc | out
                brk, cont = (brk or set()) | out, (cont or set()) | out
            h = set(exc)
            for x in s.handlers:
                h |= self.block(x.body, out, brk, cont, exc)
                if x.type is not None:
                    h |= loads(x.type)
            els = self.block(s.orelse, out, brk, cont, exc)
            return self.block(s.body, els, brk, cont, h)
        raise Giveup()


def analyse(fn):
    """{id of loop node: names}; empty when not understood"""
    try:
        return Live(fn).at
    except (Giveup, TypeError):
        return {}
