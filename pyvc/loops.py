"""Loops.

A `for` over a concrete iterable is unrolled (complete).  A `for` over a
symbolic range or symbolic-length array is handled by the invariant rule:

 1. *modifies discovery*: run the body for an arbitrary iteration i with every
    location known to be modified replaced by a fresh unknown; repeat until no
    new location is modified (the frame is then complete).
 2. *invariant*: from the body's effect on every path derive, per location,
    one of: accumulator (value = entry + SUM of a term not depending on the
    loop state), per-iteration temporary, element-wise array store at index
    i + c; anything else becomes an arbitrary value after the loop (sound).
 3. *final round*: if the body can leave the loop early or contains
    obligations, run it once more for an arbitrary i with the invariants in
    place of the unknowns; obligations are checked there.
 4. continue after the loop with the invariants at i = hi.

Rounds are sequenced through the exploration stack, so that all paths of one
round are finished before the next one starts.
"""
import sys
import random
import numpy as _np
from . import terms as T
from .engine import cur, CUR, PathAbort, Unsupported
from .sym import (Sym, SymBool, SymBase, SArr, SymRange, SymArray, SymField, SymRecord,
                  SymEnum, SymSeq, lift, mkreal, mkint, simp_int)
from .norm import Normalizer, TooBig


KROW = T.var('k!row', 'I')


def make_loop(it, site, names):
    if isinstance(it, (SymRange, SymArray, SymEnum, SymField, SymSeq)):
        return SymLoop(it, site, names)
    return ConcLoop(it)


class ConcLoop(object):
    __slots__ = ('it', 'item')
    new = {}

    def __init__(self, it):
        self.it = iter(it)

    def step(self):
        try:
            self.item = next(self.it)
            return True
        except StopIteration:
            return False


UNBOUND = 'unbound'


class WhileLoop(object):
    """A `while` is unrolled.  A path that returns to the loop head with the
    state it had at an earlier visit (every live variable and everything
    reachable from them: same objects, same contents; draws of a random
    generator are fresh each time) is cut: what follows it was already
    explored from the earlier visit, for arbitrary draws.  (Partial correctness: termination is not shown.)"""
    __slots__ = ('site', 'names', 'stored', 'seen', 'n', 'new', 'fill')

    def __init__(self, site, live=None, stored=()):
        self.site = site
        self.names = live
        self.stored = stored
        self.seen = []
        self.n = 0
        self.new = {}
        self.fill = None

    def head(self):
        e = CUR[0]
        if e is None:
            return True
        loc = sys._getframe(1).f_locals
        self.new = {}
        if self.fill is not None:
            self.fill.again(e, loc)
            raise PathAbort()
        if self.n == 0 and e.filled is not None and self.names is not None and not e.loop_stack:
            self.fill = Filling.start(e, self, loc)
            if self.fill is not None:
                self.new = self.fill.new
                return True
        names = self.names
        if names is None:
            names = sorted(k for k in loc if '__v' not in k)
        self.n += 1
        if self.n > 60:
            raise Unsupported('while loop does not close')
        try:
            fp = []
            seen = set()
            for k in names:
                fp.append(k)
                fingerprint(loc.get(k, UNBOUND), fp, seen, 0)
            fp = tuple(fp)
        except Unknown:
            return True
        if fp in self.seen:
            raise PathAbort()
        self.seen.append(fp)
        return True


class Filling(object):
    """A `while` that fills arrays of symbolic length n from the front, proved
    with an invariant P the harness states (vc.filled) about the elements at
    one index: at every visit of the loop head some number G of elements
    (0 <= G <= n) is there and P holds for each of them.

    At the first visit G is 0, and the arrays and the local integers that the
    body assigns become arbitrary under the invariant (an integer that was 0
    is G, one that was n is n - G; anything else is not understood).  The body
    runs once from there; at the next visit the invariant is proved again and
    everything else that is live has to be as it was.  The code after the loop
    is explored from the arbitrary visit."""

    @classmethod
    def start(cls, e, loop, loc):
        arrays = [(k, loc[k]) for k in loop.names if type(loc.get(k)) is SymArray and len(loc[k].dims) == 1
                  and loc[k].dims[0].op != 'const' and set(loc[k].state) == {None} and loc[k].state[None][0] == 'const'
                  and loc[k].state[None][1] is T.ZERO and loc[k].writable]
        if not arrays or len({id(a) for _, a in arrays}) != len(arrays):
            return None
        n = arrays[0][1].dims[0]
        if any(a.dims[0] is not n for _, a in arrays):
            return None
        ints = {}
        for k in loop.stored:
            if k not in loop.names or k not in loc:
                continue
            v = loc[k]
            if isinstance(v, int) and not isinstance(v, bool) and v == 0:
                ints[k] = True
            elif isinstance(v, Sym) and v.t.sort == 'I' and (v.t is n or e.quick(T.eq(v.t, n)) is True):
                ints[k] = False
            else:
                return None
        self = cls()
        self.loop, self.arrays, self.n, self.ints = loop, arrays, n, ints
        g = self.G = T.fresh('filled', 'I')
        e.declare_local(g, lambda env, rng: rng.choice([0, 1, 1, 1]) * rng.randrange(int(T.evaluate(n, env)) + 1) if rng.random() < 0.3
                        else int(T.evaluate(n, env)))
        e.assume(T.le(T.ZERO, g))
        e.assume(T.le(g, n))
        e.add_index(g)
        self.new = {k: mkint(g if up else T.sub(n, g)) for k, up in ints.items()}
        names = ['%s!%d' % (g.args[0], j) for j in range(len(arrays))]
        P, typical = e.filled
        self.P = P

        def read(m):
            def f(k):
                e = cur()
                if not any(v.op == 'bv' for v in k.fv):
                    c = [lift_bool(x) for x in P(*[mkreal(T.fn(x, k)) for x in names])]
                    e.assume(T.bor(T.bnot(T.band(T.le(T.ZERO, k), T.lt(k, g))), T.band(*c)))
                return T.fn(m, k)
            return f
        for j, (m, (_, a)) in enumerate(zip(names, arrays)):
            e.declare_fn(m, like(lift(typical[j % len(typical)]) if typical else T.ZERO))
            a.state[None] = ('fun', read(m))
        self.keep = []
        self.rest = self.others(loc)
        return self

    def others(self, loc):
        fp, seen = [], {id(a) for _, a in self.arrays}
        try:
            for k in self.loop.names:
                if k in self.ints:
                    continue
                fp.append(k)
                v = loc.get(k, UNBOUND)
                fingerprint(v, fp, seen, 0, self.keep)
        except Unknown:
            raise Unsupported('state of a while loop')
        return fp

    def again(self, e, loc):
        if any(loc.get(k) is not a for k, a in self.arrays) or self.others(loc) != self.rest:
            raise Unsupported('a while loop that changes something else')
        now = None
        for k, up in sorted(self.ints.items(), key=lambda x: not x[1]):
            t = lift(loc.get(k))
            if t is None or t.sort != 'I':
                raise Unsupported('counter of a while loop')
            t = t if up else T.sub(self.n, t)
            if now is None:
                now = t
            elif now is not t and not proved(e, T.eq(now, t)):
                raise Unsupported('counters of a while loop')
        if now is None:
            raise Unsupported('counters of a while loop')
        if not proved(e, T.band(T.le(T.ZERO, now), T.le(now, self.n))):
            raise Unsupported('counter of a while loop')
        k = T.fresh('any', 'I')
        e.locals_set.add(k)
        e.assume(T.le(T.ZERO, k))
        e.assume(T.lt(k, now))
        e.add_index(k)
        for c in self.P(*[mkreal(a.read_raw(None, (k,)).t) for _, a in self.arrays]):
            e.ensure('filled part of %s' % self.loop.site, lift_bool(c))


def like(t):
    """samples of an array: every element this number"""
    def gen(rng, env):
        v = T.evaluate(t, env)
        return lambda *k: v
    gen.env = True
    return gen


def proved(e, c):
    return e.quick(c) is True or e.prove('while loop', c).status == 'proved'


def lift_bool(x):
    return x.t if isinstance(x, SymBool) else T.TRUE if x else T.FALSE


class Unknown(Exception):
    pass


def fingerprint(x, out, seen, depth, keep=None):
    if depth > 8:
        raise Unknown()
    if isinstance(x, SymBase):
        out.append(('t', x.t.id) if isinstance(x, (Sym, SymBool)) else ('o', id(x)))
        return
    if isinstance(x, (int, float, complex, str, bytes, type(None), bool, _np.generic)) and not isinstance(x, _np.void):
        out.append((type(x).__name__, repr(x)))
        return
    out.append(id(x))
    if id(x) in seen or isinstance(x, type) or callable(x) and not hasattr(x, '__dict__'):
        return
    seen.add(id(x))
    if isinstance(x, _np.ndarray) or isinstance(x, _np.void):
        if x.dtype.names:
            for n in x.dtype.names:
                fingerprint(x[n], out, seen, depth + 1, keep)
        elif x.dtype == object:
            out.append(x.shape)
            for y in x.ravel():
                fingerprint(y, out, seen, depth + 1, keep)
        else:
            out.append((x.shape, x.tobytes()))
        return
    if keep is not None and type(x) is SymArray:
        # the states are kept, so that their identities stay theirs
        for k in x.state:
            keep.append(x.state[k])
            out.append((k, id(x.state[k]), x.writable, x.stale))
        return
    if isinstance(x, (SymArray, SymField, SymRecord, SymSeq)):
        raise Unknown()
    if isinstance(x, (list, tuple)):
        out.append(len(x))
        for y in x:
            fingerprint(y, out, seen, depth + 1, keep)
        return
    if isinstance(x, dict):
        out.append(len(x))
        for k, y in x.items():
            out.append(repr(k))
            fingerprint(y, out, seen, depth + 1, keep)
        return
    if type(x).__name__ in ('RNG', 'VC', 'module', 'function', 'method', 'builtin_function_or_method'):
        return
    d = getattr(x, '__dict__', None)
    if isinstance(d, dict):
        for k, y in d.items():
            out.append(k)
            fingerprint(y, out, seen, depth + 1, keep)
        return
    raise Unknown()


import os
DBGL = os.environ.get('PYVC_LOOP')


class Poison(object):
    def __init__(self, name):
        object.__setattr__(self, '_nm', name)

    def _bad(self, *a, **k):
        raise Unsupported('value of %s after a loop' % object.__getattribute__(self, '_nm'))

    __getattr__ = __getitem__ = __call__ = __bool__ = __float__ = __int__ = __iter__ = _bad
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = _bad
    __truediv__ = __rtruediv__ = __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _bad
    __hash__ = object.__hash__


class Info(object):
    def __init__(self):
        self.actions = []
        self.M = {}
        self.grew = False
        self.needs_final = False
        self.recs = []
        self.pos = {}
        self.closed = None


NUM = (int, float, _np.integer, _np.floating, Sym, SymBool, bool)


def walk(root, slots, syms, seen, depth=0):
    """collect the mutable numeric slots reachable from root"""
    if depth > 5 or id(root) in seen:
        return
    if isinstance(root, (str, bytes, int, float, SymBase, type(None), type)):
        return
    seen[id(root)] = root
    if isinstance(root, _np.ndarray):
        if root.dtype.names:
            for n in root.dtype.names:
                sub = root[n]
                _slots(sub, slots)
        elif root.dtype == object:
            _slots(root, slots)
        return
    if isinstance(root, _np.void):
        for n in root.dtype.names or ():
            base = root.__array_interface__['data'][0]
            off = root.dtype.fields[n][1]
            fd = root.dtype.fields[n][0]
            if fd == _np.dtype('O'):
                slots.setdefault(base + off, ('void', root, n))
            else:
                v = root[n]
                if isinstance(v, _np.ndarray):
                    walk(v.view(SArr), slots, syms, seen, depth + 1)
        return
    if isinstance(root, SymArray):
        syms[id(root.state)] = root
        return
    if isinstance(root, SymField):
        syms[id(root.arr.state)] = root.arr
        return
    if isinstance(root, SymRecord):
        syms[id(root.arr.state)] = root.arr
        return
    if isinstance(root, (list, tuple)):
        for x in root:
            walk(x, slots, syms, seen, depth + 1)
        return
    if isinstance(root, dict):
        for x in root.values():
            walk(x, slots, syms, seen, depth + 1)
        return
    d = getattr(root, '__dict__', None)
    if isinstance(d, dict) and type(root).__module__.startswith(('ngmix', 'harness')):
        for x in d.values():
            walk(x, slots, syms, seen, depth + 1)


def _slots(a, slots):
    if a.dtype != object:
        return
    base = a.__array_interface__['data'][0]
    st = a.strides
    for idx in _np.ndindex(*a.shape):
        addr = base + sum(i * s for i, s in zip(idx, st))
        slots.setdefault(addr, ('arr', a, idx))


def sget(acc):
    if acc[0] == 'arr':
        return _np.ndarray.__getitem__(acc[1], acc[2]) if acc[1].ndim else acc[1][()]
    return acc[1][acc[2]]


def sset(acc, v):
    if acc[0] == 'arr':
        _np.ndarray.__setitem__(acc[1], acc[2], v)
    else:
        acc[1][acc[2]] = v


def same(a, b):
    if a is b:
        return True
    if isinstance(a, Sym) and isinstance(b, Sym):
        return a.t is b.t
    if isinstance(a, NUM) and isinstance(b, NUM) and not isinstance(a, SymBase) and not isinstance(b, SymBase):
        return type(a) is type(b) and (a == b or (a != a and b != b))
    return False


class SymLoop(object):
    def __init__(self, it, site, names):
        self.site = site
        self.names = names
        self.new = {}
        self.started = False
        self.body = None
        if isinstance(it, SymRange):
            self.lo, self.hi = it.lo, it.hi
            self.mk = lambda i: mkint(i)
        elif isinstance(it, SymEnum):
            x = it.x
            if isinstance(x, SymRange):
                self.lo, self.hi = T.ZERO, T.sub(x.hi, x.lo)
                self.mk = lambda i: (mkint(i), mkint(T.add(x.lo, i)))
            else:
                self.lo, self.hi = T.ZERO, x.dims[0]
                self.mk = lambda i: (mkint(i), x[mkint(i)])
        else:
            self.lo, self.hi = T.ZERO, (it.dims[0] if isinstance(it, (SymArray, SymSeq)) else it.arr.dims[0])
            self.mk = lambda i: it[mkint(i)]

    # ------------------------------------------------------------------
    def step(self):
        frame = sys._getframe(1)
        if self.started:
            self.end_of_body(frame)
        self.started = True
        e = cur()
        loc = frame.f_locals
        self.slots, self.syms = {}, {}
        seen = {}
        for k, v in list(loc.items()):
            if not k.startswith('__vl'):
                walk(v, self.slots, self.syms, seen)
        self.entry = {}
        for n in self.names:
            if n in loc:
                self.entry[('L', n)] = loc[n]
        for a, acc in self.slots.items():
            self.entry[('E', a)] = sget(acc)
        # addresses differ between re-executions: name slots by order
        self.order = {}
        for i, a in enumerate(self.slots):
            self.order[('E', a)] = ('E', i)
        for i, (k, s) in enumerate(self.syms.items()):
            for f in s.state:
                self.entry[('S', k, f)] = s.state[f]
                self.order[('S', k, f)] = ('S', i, f)
        self.key = (self.site, tuple(e.dec))
        info = e.loop_info.setdefault(self.key, Info())
        pos = len(e.dec)
        if pos < len(e.prefix):
            d = e.prefix[pos]
            if not (isinstance(d, tuple) and d[0] == 'lp'):
                raise Unsupported('non-deterministic re-execution (loop)')
        else:
            d = ('lp', 0)
        k = d[1]
        if k >= len(info.actions):
            if k == 0:
                act = 'body'
            elif info.grew:
                act = 'body'
            elif info.needs_final and info.actions[-1] != 'final':
                act = 'final'
            else:
                act = 'exit'
            info.actions.append(act)
            if act == 'body':
                info.grew = False
                info.recs = []
                info.pos = {}
            if act == 'exit':
                e.loops_summarised += 1
        act = info.actions[k]
        if act != 'exit' and pos >= len(e.prefix) - 1:
            e.stack.append(tuple(e.dec) + (('lp', k + 1),))
        e.dec.append(d)
        if k > 12:
            raise Unsupported('loop frame does not stabilise')
        if act == 'exit':
            self.do_exit(info)
            return False
        self.do_body(info, act)
        return True

    def oname(self, loc):
        return self.order.get(loc, loc)

    # ------------------------------------------------------------ rounds
    def start_iter(self, e):
        i = T.fresh('i', 'I')
        lo, hi = self.lo, self.hi

        def pick(env, rng):
            a, b = int(T.evaluate(lo, env)), int(T.evaluate(hi, env))
            return rng.randrange(a, b)
        e.declare_local(i, pick)
        e.assume(T.le(lo, i))
        e.assume(T.lt(i, hi))
        e.add_index(i)
        return i

    def havoc(self, e, loc, val):
        """fresh unknown for location loc whose entry value is val"""
        if loc[0] == 'S':
            nm = 'h!%s' % '_'.join(str(x) for x in self.oname(loc)[1:])
            v = T.fresh(nm, 'R').args[0]
            e.declare_fn(v, _rand_fn)
            return ('base', v)
        if not isinstance(val, NUM):
            return Poison(loc)
        isint = isinstance(val, (int, _np.integer, bool)) or (isinstance(val, Sym) and val.t.sort == 'I')
        v = T.fresh('h', 'I' if isint and loc not in self.info.realloc else 'R')
        t0 = lift(val)

        def pick(env, rng):
            x = rng.gauss(0, 1) if v.sort == 'R' else rng.randrange(0, 3)
            return x
        e.declare_local(v, pick)
        return Sym(v)

    def put(self, loc, val):
        if loc[0] == 'L':
            self.new[loc[1]] = val
        elif loc[0] == 'E':
            sset(self.slots[loc[1]], val)
        else:
            self.syms[loc[1]].state[loc[2]] = val

    def do_body(self, info, act):
        e = cur()
        self.info = info
        if not hasattr(info, 'realloc'):
            info.realloc = set()
        inv = {v: k for k, v in self.order.items()}
        M = [inv.get(m, m) for m in sorted(info.M, key=repr)]
        self.fv0 = e.local_vars()
        if act == 'final':
            self.closed_forms(info, M)
        i = self.start_iter(e)
        self.i = i
        self.hv = {}
        self.kind = act
        first = False
        if act == 'final' and any(self.cf.get(m) is None and isinstance(self.entry[m], float) and self.entry[m] != self.entry[m] for m in M):
            # an arbitrary number does not stand for nan
            first = bool(SymBool(T.eq(i, self.lo)))
        e.loop_stack.append((info, act))
        for m in M:
            if first:
                v = self.entry[m]
            elif act == 'final':
                v = self.value_at(m, i)
            else:
                v = self.havoc(e, m, self.entry[m])
                if isinstance(v, Sym):
                    self.hv[m] = v.t
                elif isinstance(v, tuple):
                    self.hv[m] = v[1]
            self.put(m, v)
        if act == 'final' and getattr(self, 'fact', None):
            fi, f = self.fact
            e.add_forall(fi, self.lo, i, f)
        self.trail0 = len(e.trail)
        # values at body start
        self.start = {}
        for loc in self.entry:
            if loc[0] == 'L':
                self.start[loc] = self.new.get(loc[1], self.entry[loc])
            elif loc[0] == 'E':
                self.start[loc] = sget(self.slots[loc[1]])
            else:
                self.start[loc] = self.syms[loc[1]].state[loc[2]]
        self.item = self.mk(i)

    def end_of_body(self, frame):
        e = cur()
        info = self.info
        if self.kind == 'final':
            raise PathAbort()
        loc = frame.f_locals
        post = {}
        for m, v0 in self.start.items():
            if m[0] == 'L':
                v = loc.get(m[1])
            elif m[0] == 'E':
                v = sget(self.slots[m[1]])
            else:
                v = self.syms[m[1]].state[m[2]]
            if m[0] == 'S':
                ch = v is not v0
            else:
                ch = not same(v, v0)
            if ch:
                o = self.oname(m)
                if o not in info.M:
                    info.M[o] = True
                    info.grew = True
                if m[0] != 'S' and isinstance(v, NUM):
                    t = lift(v)
                    if (t is None or t.sort != 'I') and o not in info.realloc:
                        info.realloc.add(o)
                        info.realloc.add(m)
                        info.grew = True
            post[self.oname(m)] = v
        for n in self.names:
            if ('L', n) not in self.start:
                post[('L', n)] = loc.get(n)
        # sign invariants: positive after every iteration
        for o, v in post.items():
            if o[0] != 'S':
                t = lift(v) if isinstance(v, NUM) and not isinstance(v, (bool, SymBool)) else None
                info.pos[o] = info.pos.get(o, True) and t is not None and e.quick(T.lt(T.ZERO, t)) is True
        hv = {self.oname(m): h for m, h in self.hv.items()}
        info.recs.append((list(e.trail[self.trail0:]), post, hv, self.i, self.fv0))
        e.loop_stack.pop()
        raise PathAbort()

    # -------------------------------------------------------- invariants
    def closed_forms(self, info, M):
        """self.cf[loc] = function(i_term) -> value at the start of iteration i"""
        self.cf = {}
        self.exitv = {}
        recs = info.recs
        e = cur()
        entry = self.entry
        self.fact = None
        self.born = {}
        if not recs:
            for m in M:
                self.cf[m] = (lambda v: (lambda i: v))(entry[m])
            return
        i = self.reci = recs[0][3]
        fv0 = recs[0][4]
        hv = recs[0][2]
        hvars = {}
        hbases = {}
        for o, h in hv.items():
            if isinstance(h, T.Term):
                hvars[h] = o
            else:
                hbases[h] = o
        lo = self.lo
        closed = {}        # h var -> term in i
        closedb = {}       # base name -> state builder
        unresolved = set(self.oname(m) for m in M)
        back = {self.oname(m): m for m in M}

        def deps(t):
            """unresolved havocs t depends on"""
            out = set()
            for v in t.fv:
                if v in hvars and v not in closed:
                    out.add(hvars[v])
            for u in T.subterms(t):
                if u.op == 'fn' and u.args[0] in hbases and u.args[0] not in closedb:
                    out.add(hbases[u.args[0]])
            return out

        def foreign(t):
            for v in t.fv:
                if v is i or v in hvars or v.op == 'bv':
                    continue
                if '!' in v.args[0] and v not in fv0:
                    return True
            return False

        def res(t):
            t = T.subst(t, closed) if closed else t
            if closedb:
                t = subst_bases(t, closedb, self)
            return t

        def tree(items, depth=0):
            """items: [(trail, term)] -> ite term"""
            if len(items) == 1 or all(x[1] is items[0][1] for x in items):
                return items[0][1]
            c = None
            for tr, v in items:
                if len(tr) > depth:
                    c = tr[depth]
                    break
            if c is None:
                raise TooBig('paths')
            yes = [x for x in items if len(x[0]) > depth and x[0][depth] is c]
            no = [x for x in items if not (len(x[0]) > depth and x[0][depth] is c)]
            if not no:
                return tree(yes, depth + 1)
            a, b = tree(yes, depth + 1), tree(no, depth + 1)
            return T.ite(c, a, b)

        progress = True
        while progress and unresolved:
            progress = False
            for o in sorted(unresolved, key=repr):
                m = back[o]
                try:
                    if o[0] == 'S':
                        r = self.array_form(o, m, recs, i, hv, deps, foreign, res, tree, info)
                    else:
                        r = self.scalar_form(o, m, recs, i, hv, deps, foreign, res, tree)
                except TooBig:
                    r = None
                if r is None:
                    if DBGL:
                        print('LOOP', self.site, o, [(p[o] if o[0] != 'S' else p[o][0]) for _, p, _, _, _ in recs][:4], file=sys.stderr)
                        if o[0] == 'S':
                            st = recs[-1][1][o]
                            while isinstance(st, tuple):
                                print('    ', st[0], [T.show(x)[:300] if isinstance(x, T.Term) else [T.show(y) for y in x] if isinstance(x, tuple) and x and isinstance(x[0], T.Term) else '' for x in st[2:]], file=sys.stderr)
                                st = st[1]
                            print('    ', st, hv.get(o), file=sys.stderr)
                    continue
                progress = True
                unresolved.discard(o)
                at, cl = r
                self.cf[m] = at
                h = hv.get(o)
                if isinstance(h, T.Term):
                    closed[h] = cl
                elif h is not None:
                    closedb[h] = (m, at)
                e.loop_obls += 2
        for o in unresolved:
            m = back[o]
            self.cf[m] = None
            if o[0] == 'L':
                try:
                    f = self.born_form(o, recs, i, deps, foreign, res, tree)
                except TooBig:
                    f = None
                if f is not None:
                    def at(k, f=f, m=m):
                        return f(k) if cur().quick(T.lt(lo, k)) is True else self.unknown(m)
                    self.cf[m] = at
        # names bound in the body only
        self.born = {}
        for n in self.names:
            if ('L', n) not in entry:
                try:
                    f = self.born_form(('L', n), recs, i, deps, foreign, res, tree)
                except TooBig:
                    f = None
                if f is not None:
                    self.born[n] = f
        # every iteration that did not leave the loop followed one of the paths
        self.fact = None
        if info.needs_final:
            try:
                cs = []
                for tr, _, _, _, _ in recs:
                    for c in tr:
                        if deps(c) or foreign(c) or reads_bases(c, hbases):
                            raise TooBig('fact')
                    cs.append(T.band(*[res(c) for c in tr]))
                f = T.bor(*cs)
                if f is not T.TRUE:
                    self.fact = (i, f)
            except TooBig:
                pass

    def born_form(self, o, recs, i, deps, foreign, res, tree):
        vals = [(tr, post.get(o)) for tr, post, _, _, _ in recs]
        if not vals or any(v is None for _, v in vals):
            return None
        if all(isinstance(v, SymRecord) for _, v in vals):
            a = vals[0][1].arr
            nm = a.name
            if any(v.arr.name != nm or len(v.idx) != 1 for _, v in vals):
                return None
            arr = [s for s in self.syms.values() if s.name == nm]
            if len(arr) != 1:
                return None
            items = [(tr, v.idx[0]) for tr, v in vals]
            mk = lambda t: SymRecord(arr[0], (simp_int(t),))
        elif all(isinstance(v, NUM) for _, v in vals):
            items = [(tr, lift(v)) for tr, v in vals]
            if any(t is None for _, t in items):
                return None
            mk = mkreal
        else:
            return None
        for tr, t in items:
            if deps(t) or foreign(t):
                return None
        if any(t is not items[0][1] for _, t in items):
            for tr, t in items:
                if any(deps(c) or foreign(c) for c in tr):
                    return None
        p = tree([([res(c) for c in tr], res(t)) for tr, t in items])
        return lambda k: mk(T.subst(p, {i: T.sub(k, T.ONE)}))

    def scalar_form(self, o, m, recs, i, hv, deps, foreign, res, tree):
        entry = self.entry[m]
        h = hv.get(o)
        items = []
        for tr, post, _, _, _ in recs:
            v = post[o]
            if not isinstance(v, NUM):
                return None
            t = lift(v)
            if t is None:
                return None
            items.append((tr, t))
        free = all(not deps(c) and not foreign(c) for tr, t in items for c in tr)
        lo = self.lo
        et = lift(entry) if isinstance(entry, NUM) else None
        # temporary: does not depend on the loop state
        if all(not deps(t) and not foreign(t) and (h is None or h not in t.fv) for tr, t in items) \
                and (free or all(t is items[0][1] for tr, t in items)):
            p = res(tree([([res(c) for c in tr], res(t)) for tr, t in items]))
            if et is None:
                return None
            def at(k):
                return mkreal(T.ite(T.lt(lo, k), T.subst(p, {i: T.sub(k, T.ONE)}), et)) \
                    if not (k is lo) else entry
            cl = T.ite(T.lt(lo, i), T.subst(p, {i: T.sub(i, T.ONE)}), et)
            if cur().quick(T.lt(lo, self.hi)) is True:
                pass
            return at, cl
        if h is None or et is None:
            return None
        ds = []
        for tr, t in items:
            d = _minus(t, h)
            if d is None or deps(d) or foreign(d) or h in d.fv:
                return None
            ds.append(([res(c) for c in tr] if free else [], res(d)))
        if not free and any(d is not ds[0][1] for _, d in ds):
            return None
        delta = tree(ds)
        if foreign(delta):
            return None

        if i not in delta.fv:
            # the same amount each time
            def at(k):
                if cur().quick(T.le(lo, k)) is True:
                    return mkreal(simp_int(T.add(et, T.mul(delta, T.sub(k, lo)))))
                return mkreal(T.add(et, rsum(i, lo, k, delta)))
            return at, simp_int(T.add(et, T.mul(delta, T.sub(i, lo))))

        def at(k):
            return mkreal(T.add(et, rsum(i, lo, k, delta)))
        return at, T.add(et, rsum(_j(i), lo, i, T.subst(delta, {i: _j(i)})))

    def array_form(self, o, m, recs, i, hv, deps, foreign, res, tree, info):
        prev = self.entry[m]
        hb = hv.get(o)
        widx = None
        items = []
        free = not any(deps(c) or foreign(c) for tr, _, _, _, _ in recs for c in tr)
        for tr, post, _, _, _ in recs:
            st = post[o]
            vals = {}
            chain = []
            while st[0] == 'store':
                chain.append((st[2], st[3]))
                st = st[1]
            if st[0] in ('map', 'pack') and st[1] == ('base', hb) and not chain:
                items.append((tr, st))
                continue
            if st != ('base', hb):
                return None
            for idx, val in reversed(chain):
                idx = tuple(simp_int(x) for x in idx)
                if widx is None:
                    widx = idx
                if idx != widx:
                    return None
                vals = val
            items.append((tr, vals if chain else None))
        if not free:
            # the paths are not known, but all of them store the same
            if any(v is None or isinstance(v, tuple) or v is not items[0][1] for _, v in items):
                return None
            items = [([], v) for _, v in items[:1]]
        if any(isinstance(x[1], tuple) and x[1][0] == 'pack' for x in items):
            return self.packs_form(o, m, items, recs, i, hb, hv, deps, foreign, res)
        if any(isinstance(x[1], tuple) for x in items):
            r = self.sweep_form(o, m, items, i, hb, deps, foreign, res, tree)
            if r is not None:
                return r
            r = self.rows_form(o, m, items, i, hb, deps, foreign, res, tree)
            if r is not None:
                return r
            return self.block_form(o, m, items, i, hb, deps, foreign, res, tree)
        if widx is None:
            return None
        if any(deps(w) for w in widx):
            return None
        rawidx = widx
        widx = tuple(simp_int(res(w)) for w in widx)
        dims = [j for j, w in enumerate(widx) if i in w.fv]
        if not dims:
            return self.cell_form(o, m, items, i, hb, rawidx, widx, deps, foreign, res, tree)
        if len(dims) != 1:
            return None
        off = simp_int(T.sub(widx[dims[0]], i))
        if i in off.fv:
            return self.pack_form(o, m, items, recs, i, hb, hv, rawidx, widx, dims[0], deps, foreign, res, tree)
        for w in widx:
            if foreign(w) or deps(w):
                return None
        own = T.fn(hb, *rawidx)
        sa = self.syms[m[1]]
        pv = None
        if any(v is None or own in _sub(v) or any(own in _sub(c) for c in tr) for tr, v in items):
            pv = sa._read_state(prev, widx)
        out = []
        for tr, v in items:
            v = pv if v is None else subst_exact(v, own, pv)
            if any(u.op == 'fn' and u.args[0] == hb for u in T.subterms(v)):
                return None
            if deps(v) or foreign(v):
                return None
            out.append(([res(subst_exact(c, own, pv)) for c in tr], res(v)))
        val = tree(out)
        lo = self.lo
        kv = T.var('k!map%d' % val.depth, 'I')
        wi = tuple(T.subst(w, {i: kv}) for w in widx)
        vv = T.subst(val, {i: kv})

        def at(k):
            return ('map', prev, lo, k, kv, wi, vv)
        return at, None

    def counter(self, raw, recs, hv, o):
        """the location whose value at the start of the iteration is this index"""
        for c, h in hv.items():
            if h is raw and all(isinstance(post.get(c), NUM) for _, post, _, _, _ in recs):
                return c, h
        return None, None

    def pack_form(self, o, m, items, recs, i, hb, hv, rawidx, widx, d, deps, foreign, res, tree):
        """iterations that meet a condition write the next element each: the
        index is a counter that is increased by one exactly then"""
        c, h = self.counter(rawidx[d], recs, hv, o)
        if c is None or len(items) != len(recs) or any(j != d and (i in w.fv or foreign(w)) for j, w in enumerate(widx)):
            return None
        guards, vals = [], []
        for (tr, v), (tr0, post, _, _, _) in zip(items, recs):
            step = simp_int(T.sub(lift(post[c]), h))
            if step is not (T.ZERO if v is None else T.ONE):
                return None
            if v is None:
                continue
            if reads_bases(v, (hb,)) or deps(v) or foreign(v) or any(reads_bases(x, (hb,)) for x in tr):
                return None
            tr = [res(x) for x in tr]
            guards.append(T.band(*tr))
            vals.append((tr, res(v)))
        if not vals:
            return None
        val, G = tree(vals), T.bor(*guards)
        prev, lo, hi = self.entry[m], self.lo, self.hi
        kv = T.var('k!pack%d' % max(val.depth, G.depth, *[w.depth for w in widx]), 'I')
        s = {i: kv}
        wi = tuple(T.subst(w, s) for w in widx)
        first = simp_int(T.subst(widx[d], {i: lo}))
        G, val = T.subst(G, s), T.subst(val, s)

        def at(k):
            if k is lo:
                return prev
            return ('pack', prev, (kv,), ((lo, k),), first, T.subst(widx[d], {i: k}), wi, d, G, val)
        return at, None

    def packs_form(self, o, m, items, recs, i, hb, hv, deps, foreign, res):
        """each iteration writes, with an inner loop of that kind, the next
        elements: the inner loop starts where the counter stands and the
        counter moves to where the inner loop ended"""
        if len(items) != 1 or len(recs) != 1:
            return None
        st = items[0][1]
        _, _, ks, ranges, first, last, wi, d, G, val = st
        c, h = self.counter(first, recs, hv, o)
        if c is None:
            return None
        if simp_int(T.sub(lift(recs[0][1][c]), last)) is not T.ZERO:
            return None
        ts = [x for r in ranges for x in r] + [last, G, val] + list(wi)
        zero = {k: T.ZERO for k in ks}
        if any(reads_bases(t, (hb,)) or deps(t) or foreign(T.subst(t, zero)) for t in ts):
            return None
        if any(j != d and i in w.fv for j, w in enumerate(wi)):
            return None
        prev, lo = self.entry[m], self.lo
        start = res(h)
        kv = T.var('k!packs%d' % max(t.depth for t in ts), 'I')
        s = {i: kv}

        def f(t):
            return T.subst(res(t), s)
        args = (tuple(f(w) for w in wi), d, f(G), f(val))
        rs = tuple((f(a), f(b)) for a, b in ranges)
        first0 = simp_int(T.subst(start, {i: lo}))

        def at(k):
            if k is lo:
                return prev
            return ('pack', prev, (kv,) + ks, ((lo, k),) + rs, first0, T.subst(start, {i: k})) + args
        return at, None

    def cell_form(self, o, m, items, i, hb, rawidx, widx, deps, foreign, res, tree):
        """every iteration writes the same element: an accumulator or a
        temporary kept in the array"""
        if any(foreign(w) or deps(w) for w in widx):
            return None
        prev = self.entry[m]
        own = T.fn(hb, *rawidx)
        pv = self.syms[m[1]]._read_state(prev, widx)
        lo = self.lo

        def reads(t):
            return any(u.op == 'fn' and u.args[0] == hb for u in T.subterms(t))
        if any(reads(c) for tr, v in items for c in tr):
            return None
        if all(v is not None and not reads(v) and not deps(v) and not foreign(v) for tr, v in items):
            p = tree([([res(c) for c in tr], res(v)) for tr, v in items])

            def at(k):
                if k is lo:
                    return prev
                v = T.ite(T.lt(lo, k), T.subst(p, {i: T.sub(k, T.ONE)}), pv)
                return ('store', prev, widx, v)
            return at, None
        hc = T.fresh('c')
        ds = []
        for tr, v in items:
            d = T.ZERO if v is None else _minus(subst_exact(v, own, hc), hc)
            if d is None or hc in d.fv or reads(d) or deps(d) or foreign(d):
                return None
            ds.append(([res(c) for c in tr], res(d)))
        delta = tree(ds)

        def at(k):
            if k is lo:
                return prev
            return ('store', prev, widx, T.add(pv, rsum(i, lo, k, delta)))
        return at, None

    def peek(self, m, st, idx):
        """element of a state at an index that need not be a declared input"""
        if st[0] == 'base':
            return T.fn(st[1], *idx)
        return self.syms[m[1]]._read_state(st, idx)

    def sweep_form(self, o, m, items, i, hb, deps, foreign, res, tree):
        """every iteration passes, with an inner loop, over the same elements:
        an accumulator or a temporary for each of them"""
        ref = None
        for tr, st in items:
            if st is None:
                continue
            if not isinstance(st, tuple) or i in st[2].fv or i in st[3].fv or any(i in w.fv for w in st[5]):
                return None
            for t in (st[2], st[3]) + tuple(st[5]):
                if deps(t) or foreign_but(foreign, t, st[4]) or reads_bases(t, (hb,)):
                    return None
            wi = tuple(simp_int(res(w)) for w in st[5])
            key = (simp_int(res(st[2])), simp_int(res(st[3])), st[4], wi, st[5])
            if any(i in t.fv for t in key[:2] + wi):
                return None
            if ref is not None and (key[0] is not ref[0] or key[1] is not ref[1]):
                return None
            if ref is not None and key[2] is not ref[2]:
                if tuple(T.subst(w, {key[2]: ref[2]}) for w in key[4]) != ref[4]:
                    return None
            if ref is None:
                ref = key
        ilo, ihi, kv, wi, raw = ref
        if sum(kv in w.fv for w in wi) != 1:
            return None
        prev = self.entry[m]
        lo = self.lo
        own = T.fn(hb, *raw)
        if any(reads_bases(c, (hb,)) for tr, _ in items for c in tr):
            return None
        vals = []
        for tr, st in items:
            if st is None:
                vals.append((tr, own))
            else:
                vals.append((tr, T.subst(st[6], {st[4]: kv}) if st[4] is not kv else st[6]))

        def bad(t):
            return reads_bases(t, (hb,)) or deps(t) or foreign_but(foreign, t, kv)
        if not any(bad(v) for _, v in vals):
            p = tree([([res(c) for c in tr], res(v)) for tr, v in vals])

            def at(k):
                if k is lo:
                    return prev
                if cur().quick(T.lt(lo, k)) is True:
                    return ('map', prev, ilo, ihi, kv, wi, T.subst(p, {i: T.sub(k, T.ONE)}))
                pv = self.peek(m, prev, wi)
                return ('map', prev, ilo, ihi, kv, wi, T.ite(T.lt(lo, k), T.subst(p, {i: T.sub(k, T.ONE)}), pv))
            return at, None
        hc = T.fresh('c')
        ds = []
        for tr, v in vals:
            d = _minus(subst_exact(v, own, hc), hc)
            if d is None or hc in d.fv or bad(d):
                return None
            ds.append(([res(c) for c in tr], res(d)))
        delta = tree(ds)
        pv = self.peek(m, prev, wi)

        def at(k):
            if k is lo:
                return prev
            return ('map', prev, ilo, ihi, kv, wi, T.add(pv, rsum(i, lo, k, delta)))
        return at, None

    def rows_form(self, o, m, items, i, hb, deps, foreign, res, tree):
        """each iteration fills, with an inner loop or at once, its own row (or column), or leaves it"""
        ref = None
        for tr, st in items:
            if st is None:
                continue
            if not isinstance(st, tuple) or st[0] != 'map':
                return None
            wi = tuple(simp_int(res(T.subst(w, {st[4]: KROW}))) for w in st[5])
            key = (simp_int(res(st[2])), simp_int(res(st[3])), wi)
            if ref is None:
                ref = key
            if key != ref:
                return None
        if ref is None:
            return None
        ilo, ihi, wi = ref
        rows = [j for j, w in enumerate(wi) if i in w.fv]
        cols = [j for j, w in enumerate(wi) if KROW in w.fv]
        if len(rows) != 1 or len(cols) != 1 or rows == cols:
            return None
        off = simp_int(T.sub(wi[rows[0]], i))
        for t in (ilo, ihi, off) + tuple(w for j, w in enumerate(wi) if j != rows[0]):
            if i in t.fv or deps(t) or foreign_but(foreign, t, KROW) or reads_bases(t, (hb,)):
                return None
        prev = self.entry[m]
        out = []
        for tr, st in items:
            v = self.peek(m, prev, wi) if st is None else T.subst(st[6], {st[4]: KROW})
            if deps(v) or foreign_but(foreign, v, KROW) or reads_bases(v, (hb,)):
                return None
            if any(deps(c) or foreign(c) or reads_bases(c, (hb,)) for c in tr):
                return None
            out.append(([res(c) for c in tr], res(v)))
        val = tree(out)
        lo = self.lo
        ov = T.var('o!row%d' % val.depth, 'I')
        kv = T.var('k!row%d' % val.depth, 'I')
        vv = T.subst(val, {i: ov, KROW: kv})
        wv = tuple(T.subst(w, {i: ov, KROW: kv}) for w in wi)

        def at(k):
            if k is lo:
                return prev
            return ('rows', prev, lo, k, ov, kv, ilo, ihi, rows[0], cols[0], wv, vv)
        return at, None

    def block_form(self, o, m, items, i, hb, deps, foreign, res, tree):
        """each iteration fills, with an inner loop, its own block of the array"""
        ref = None
        out = []
        for tr, st in items:
            if not isinstance(st, tuple):
                return None
            _, _, ilo, ihi, kv, wi, vv = st
            for t in (ilo, ihi, vv) + tuple(wi):
                if deps(t) or foreign_but(foreign, t, kv) or any(u.op == 'fn' and u.args[0] == hb for u in T.subterms(t)):
                    return None
            if i in ilo.fv or i in ihi.fv:
                return None
            wi = tuple(simp_int(res(w)) for w in wi)
            key = (simp_int(res(ilo)), simp_int(res(ihi)), kv, wi)
            if ref is None:
                ref = key
            if key != ref:
                return None
            out.append(([res(c) for c in tr], res(vv)))
        ilo, ihi, kv, wi = ref
        ds = [j for j, w in enumerate(wi) if kv in w.fv]
        if len(ds) != 1 or any(i in w.fv for j, w in enumerate(wi) if j != ds[0]):
            return None
        off = simp_int(T.sub(wi[ds[0]], kv))
        if kv in off.fv:
            return None
        base = T.subst(off, {i: T.ZERO})
        size = simp_int(T.sub(T.subst(off, {i: T.ONE}), base))
        # off = base + size*i with size the length of the inner loop
        if simp_int(T.sub(off, T.add(base, T.mul(size, i)))) is not T.ZERO:
            return None
        if simp_int(T.sub(size, T.sub(ihi, ilo))) is not T.ZERO:
            return None
        base = simp_int(T.add(base, ilo))
        val = tree(out)
        prev = self.entry[m]
        lo = self.lo
        ov = T.var('o!map%d' % val.depth, 'I')
        vv = T.subst(val, {i: ov})

        def at(k):
            return ('map2', prev, lo, k, ov, kv, ilo, size, base, ds[0], wi, vv)
        return at, None

    def value_at(self, m, k):
        f = self.cf.get(m)
        if f is not None:
            return f(k)
        return self.unknown(m)

    def unknown(self, m):
        e = cur()
        val = self.entry[m]
        if m[0] == 'S':
            v = T.fresh('u!arr').args[0]
            e.declare_fn(v, _rand_fn)
            return ('base', v)
        if not isinstance(val, NUM):
            return Poison(m)
        isint = isinstance(val, (int, _np.integer, bool)) or (isinstance(val, Sym) and val.t.sort == 'I')
        v = T.fresh('u', 'I' if isint and self.oname(m) not in self.info.realloc else 'R')
        e.havocked = True
        pos = getattr(self.info, 'pos', {}).get(self.oname(m)) is True and (
            (isinstance(val, float) and val != val) or (lift(val) is not None and e.quick(T.lt(T.ZERO, lift(val))) is True))
        e.declare_local(v, lambda env, rng: (abs(rng.gauss(0, 1)) if pos else rng.gauss(0, 1)) if v.sort == 'R' else rng.randrange(1 if pos else 0, 3))
        if pos:
            e.assume(T.lt(T.ZERO, v))
        return Sym(v)

    def do_exit(self, info):
        e = cur()
        self.info = info
        if not hasattr(info, 'realloc'):
            info.realloc = set()
        inv = {v: k for k, v in self.order.items()}
        M = [inv.get(m, m) for m in sorted(info.M, key=repr)]
        self.fv0 = e.local_vars()
        self.closed_forms(info, M)
        # the loop variable and temporaries defined only in the body
        for n in self.names:
            if ('L', n) not in self.entry:
                f = self.born.get(n)
                if f is not None and e.quick(T.lt(self.lo, self.hi)) is True:
                    self.new[n] = f(self.hi)
                else:
                    self.new[n] = Poison(n)
        first = False
        if any(self.cf.get(m) is None and isinstance(self.entry[m], float) and self.entry[m] != self.entry[m] for m in M):
            first = bool(SymBool(T.le(self.hi, self.lo)))
        for m in M:
            self.put(m, self.entry[m] if first else self.value_at(m, self.hi))
        if getattr(self, 'fact', None):
            i, f = self.fact
            e.add_forall(i, self.lo, self.hi, f)


def foreign_but(foreign, t, kv):
    return foreign(T.subst(t, {kv: T.ZERO}))


def reads_bases(t, names):
    return any(u.op == 'fn' and u.args[0] in names for u in T.subterms(t))


def rsum(i, lo, hi, body):
    """sum of body for lo <= i < hi; a range that starts at a term is moved to
    start at zero"""
    n = simp_int(T.sub(hi, lo))
    if n.op == 'const' and 0 <= n.args[0] <= 4:
        return T.add(T.ZERO, *[T.subst(body, {i: simp_int(T.add(lo, T.const(k)))}) for k in range(int(n.args[0]))])
    if lo.op == 'const':
        return T.sum_(i, lo, hi, body)
    return T.sum_(i, T.ZERO, n, T.subst(body, {i: simp_int(T.add(lo, i))}))


def _j(i):
    return T.var('j!sum', 'I')


def _rand_fn(rng):
    s = rng.randrange(1 << 30)

    def f(*idx):
        return random.Random(hash((s,) + tuple(float(x) for x in idx))).gauss(0, 1)
    return f


def _minus(t, h):
    """t - h when t = h + d"""
    if t is h:
        return T.ZERO
    if t.op == 'add':
        args = list(t.args)
        for k, a in enumerate(args):
            if a is h:
                rest = args[:k] + args[k + 1:]
                d = T.add(*rest) if rest else T.ZERO
                if h not in d.fv:
                    return d
    if t.op == 'ite':
        a, b = _minus(t.args[1], h), _minus(t.args[2], h)
        if a is not None and b is not None and h not in t.args[0].fv:
            return T.ite(t.args[0], a, b)
    try:
        n = Normalizer(())
        p = n.psub(n.nf(t), n.nf(h))
        d = n.to_term(p)
        if h not in d.fv:
            return d
    except (TooBig, ZeroDivisionError):
        pass
    return None


def subst_exact(t, a, b):
    if a not in _sub(t):
        return t
    memo = {}

    def go(u):
        if u is a:
            return b
        r = memo.get(u.id)
        if r is not None:
            return r
        xs = [go(x) if isinstance(x, T.Term) else x for x in u.args]
        r = u if all(p is q for p, q in zip(xs, u.args)) else T.rebuild(u.op, xs, u)
        memo[u.id] = r
        return r
    return go(t)


def _sub(t):
    return set(T.subterms(t))


def subst_bases(t, cb, loop):
    """reads of arrays written by the loop whose contents at the start of
    iteration i are known by now"""
    memo = {}

    def go(u):
        r = memo.get(u.id)
        if r is not None:
            return r
        xs = [go(x) if isinstance(x, T.Term) else x for x in u.args]
        if u.op == 'fn' and u.args[0] in cb:
            if any(x.op == 'bv' for x in T.subterms(u)):
                raise TooBig('read of an array written by the same loop')
            m, at = cb[u.args[0]]
            r = loop.peek(m, at(loop.reci), tuple(simp_int(x) for x in xs[1:]))
        elif all(p is q for p, q in zip(xs, u.args)):
            r = u
        else:
            r = T.rebuild(u.op, xs, u)
        memo[u.id] = r
        return r
    return go(t)
