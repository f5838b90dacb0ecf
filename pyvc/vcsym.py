"""Harness interface, symbolic mode (proof)."""
import random
import numpy as _np
from . import terms as T
from .engine import Engine, PathAbort, Unsupported, BudgetExceeded, CUR, Obligation
from .sym import (Sym, SymBool, SymBase, SArr, SymArray, SymSeq, lift, blift, mkreal, mkint)
from .vcbase import Outcome, gen_real, RNG, ArrGen, Skip, uses, adapted
from . import shims, smt
from .vcsym_ser import ser_env


class VC(object):
    mode = 'sym'
    symbolic = True

    def __init__(self, e, unit=None):
        self.e = e
        e.vc = self
        self.np = shims.numpy
        self.unit = unit
        self.patches = []

    # inputs
    def real(self, name, lo=None, hi=None, pos=False, gen=None, special=(), real01=False):
        g = gen or gen_real(lo, hi, pos, special)
        v = self.e.declare(name, g)
        if pos:
            self.e.assume(T.lt(T.ZERO, v))
        if lo is not None:
            self.e.assume(T.le(lift(lo), v))
        if hi is not None:
            self.e.assume(T.le(v, lift(hi)))
        return Sym(v)

    def reals(self, names, **k):
        return [self.real(n, **k) for n in names.split()]

    def int(self, name, lo=0, hi=None, gen=None):
        g = gen or (lambda r: r.randrange(lo, (hi if hi is not None else lo + 6) + 1))
        v = self.e.declare(name, g, 'I')
        if lo is not None:
            self.e.assume(T.le(T.const(lo), v))
        if hi is not None:
            self.e.assume(T.le(v, T.const(hi)))
        return Sym(v)

    def bool(self, name):
        v = self.e.declare(name, lambda r: r.randrange(2), 'I')
        self.e.assume(T.le(T.ZERO, v))
        self.e.assume(T.le(v, T.ONE))
        return SymBool(T.eq(v, T.ONE))

    def vec(self, name, n, **k):
        return SArr([self.real('%s_%d' % (name, i), **k) for i in range(n)])

    def mat(self, name, shape, **k):
        a = _np.empty(shape, dtype=object)
        for i in _np.ndindex(*shape):
            a[i] = self.real('%s_%s' % (name, '_'.join(map(str, i))), **k)
        return a.view(SArr)

    def symarr(self, name, n, fields, dtype=None):
        """array of symbolic length n; fields: {field: dict(lo=,hi=,pos=,gen=)}
        or dict(of=f): the field at index k is f(k);
        field None for a plain array"""
        dims = [lift(x) for x in (n if isinstance(n, tuple) else (n,))]
        a = SymArray(name, dims, list(fields))
        for f, k in fields.items():
            nm = name if f is None else '%s.%s' % (name, f)
            if k.get('of'):
                a.state[f] = ('fun', lambda *idx, h=k['of']: lift(h(*[mkint(i) for i in idx])))
                continue
            g = k.get('gen') or gen_real(k.get('lo'), k.get('hi'), k.get('pos', False), k.get('special', ()))
            self.e.declare_fn(nm, (lambda g: (lambda r: ArrGen(r.randrange(1 << 40), g)))(g))

            def fact(*idx, nm=nm, k=k):
                t = T.fn(nm, *idx)
                cs = []
                if k.get('pos'):
                    cs.append(T.lt(T.ZERO, t))
                if k.get('lo') is not None:
                    cs.append(T.le(lift(k['lo']), t))
                if k.get('hi') is not None:
                    cs.append(T.le(t, lift(k['hi'])))
                return T.band(*cs)
            self.e.array_facts[nm] = fact
        return a

    def build(self, shape, f):
        """the array with elements f(i, j)"""
        def g(*idx):
            t = lift(f(*[mkint(i) for i in idx]))
            if t is None:
                raise Unsupported('non-finite element')
            return t
        from .sym import built
        return built([lift(x) for x in shape], g)

    def filled(self, P, *typical):
        """the invariant of `while` loops that fill arrays of any length from
        the front: P(x, y, ...) are the claims about the elements of those
        arrays (in the order of their names) at one index; typical: numbers
        that meet them (only to have examples)"""
        self.e.filled = (P, typical)

    def seq(self, n, f):
        """any number of objects, element k is f(k)"""
        return SymSeq(n, f)

    def ragged(self, name, lo=1):
        """rows of different (any) length: n(k) elements in row k"""
        e = self.e
        nm = name + '.n'
        e.declare_fn(nm, lambda r: ArrGen(r.randrange(1 << 40), lambda q: lo + q.randrange(4)))
        e.array_facts[nm] = lambda k: T.le(T.const(lo), T.fn('toint', T.fn(nm, k)))
        vc = self

        class Rag(object):
            def n(self, k):
                t = T.fn(nm, lift(k))
                e.instantiate(t)
                return mkint(T.fn('toint', t))

            def arr(self, f, k, **kw):
                fm = '%s.%s' % (name, f)
                k = lift(k)
                if fm not in e.array_facts:
                    vc.symarr(fm, (1, 1), {None: kw})
                a = SymArray(fm, (lift(self.n(mkint(k))),), [None])

                def get(i):
                    t = T.fn(fm, k, i)
                    e.instantiate(t)
                    return t
                a.state[None] = ('fun', get)
                return a
        return Rag()

    def rng(self, name, whole=False):
        return RNG(self, name, whole)

    @property
    def medians(self):
        return self.e.medians

    # logic
    def assume(self, c):
        self.e.assume(blift(c))

    def case(self, c):
        """split on a condition"""
        return bool(c)

    def ensure(self, name, c):
        self.e.ensure(name, blift(c))

    def lt(self, name, a, b):
        self.ensure(name, a < b)

    def le(self, name, a, b, tol=0):
        self.ensure(name, a <= b)

    def eq(self, name, a, b, tol=None, scale=None):
        if isinstance(a, (_np.ndarray, list, tuple)) or isinstance(b, (_np.ndarray, list, tuple)):
            a = _np.asarray(a, dtype=object)
            b = _np.asarray(b, dtype=object)
            if a.shape != b.shape:
                try:
                    a, b = _np.broadcast_arrays(a, b)
                except ValueError:
                    self.e.ensure(name + ' (shape)', T.FALSE)
                    return
            for i, (x, y) in enumerate(zip(a.ravel(), b.ravel())):
                self.eq('%s[%d]' % (name, i), x, y)
            return
        for x in (a, b):
            if x is None or isinstance(x, str):
                self.e.ensure(name, T.TRUE if (a is b or (isinstance(a, str) and a == b)) else T.FALSE)
                return
        ta, tb = lift(a), lift(b)
        if ta is None or tb is None:
            # nan / inf
            ok = ta is None and tb is None and (a == b or (a != a and b != b))
            self.e.ensure(name, T.TRUE if ok else T.FALSE)
            return
        self.e.ensure(name, T.eq(ta, tb))

    def isnan(self, name, a):
        ok = isinstance(a, (float, _np.floating)) and a != a
        self.e.ensure(name, T.TRUE if ok else T.FALSE)

    def finite(self, name, a):
        for x in _np.asarray(a, dtype=object).ravel():
            ok = isinstance(x, SymBase) or (x is not None and x == x and abs(x) != float('inf'))
            self.e.ensure(name, T.TRUE if ok else T.FALSE)

    def true(self, name, c):
        """a condition that is concrete in both modes"""
        self.e.ensure(name, blift(c))

    def implies(self, a, b):
        return SymBool(T.implies(blift(a), blift(b)))

    def And(self, *a):
        return SymBool(T.band(*[blift(x) for x in a]))

    def Or(self, *a):
        return SymBool(T.bor(*[blift(x) for x in a]))

    def Not(self, a):
        return SymBool(T.bnot(blift(a)))

    def when(self, c, f):
        """f() where c holds, else 0"""
        c = blift(c)
        q = self.e.quick(c)
        if q is False:
            return 0.0
        if q is True:
            return f()
        t = self.e.scoped([c], lambda: lift(f()))
        return 0.0 if t is None else mkreal(T.ite(c, t, T.ZERO))

    def counted(self, total, size, cond, bounds=False):
        """lemma: total of size things meet a condition, and cond says whether a certain one of them does;
        with bounds, also that total lies between zero and size"""
        cond = self.case(cond)
        cs = [total > 0 if cond else total != size]
        if bounds:
            cs = [total > 0, total <= size] if cond else [total >= 0, total < size]
        for c in cs:
            c = blift(c)
            if self.e.quick(c) is False:
                raise PathAbort()
            self.e.assume(c)
        if bounds and smt.check_sat(list(self.e.pc), 500)[0] == 'unsat':
            raise PathAbort()
        return cond

    def ite(self, c, a, b):
        return mkreal(T.ite(blift(c), lift(a), lift(b)))

    def quot(self, a, b):
        """a quotient in a specification; b is not zero where it matters"""
        return mkreal(T.div(lift(a), lift(b)))

    def sum(self, n, f, lo=0):
        n = lift(n)
        if n.op == 'const':
            r = 0.0
            for k in range(int(lift(lo).args[0]), int(n.args[0])):
                r = r + f(k)
            return r
        def g(i):
            t = lift(f(mkint(i)))
            if t is None:
                raise Unsupported('non-finite summand')
            return t
        return mkreal(self.e.total([(lift(lo), n)], g))

    def at(self, name, n):
        """an arbitrary index 0 <= k < n (for universally quantified clauses)"""
        k = T.var('at!' + name, 'I')
        e = self.e
        tn = lift(n)
        e.declare_local(k, lambda env, rng: rng.randrange(0, int(T.evaluate(tn, env))))
        e.assume(T.le(T.ZERO, k))
        e.assume(T.lt(k, tn))
        e.add_index(k)
        return mkint(k)

    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except Exception as x:
            beyond(x)
            return Outcome(None, x)

    def cover(self, name):
        if not self.e.in_discovery():
            self.e.cover(name)

    def fn(self, name, x):
        """mathematical function in a specification"""
        return getattr(self.np, name)(x)

    def deriv(self, f, x):
        """derivative of the function f at the input x"""
        try:
            return mkreal(T.diff(lift(f(x)), lift(x)))
        except ValueError as err:
            raise Unsupported(str(err))

    def have(self, name, c):
        """prove c, then use it"""
        c = blift(c)
        if self.e.ensure(name, c):
            self.e.assume(c)

    # call-site contracts
    def contract(self, attr, pre=None, post=None, result=None, why=''):
        """every call of ngmix function `attr` from here on is checked against
        pre (an obligation) and contributes post (proved by the unit `why`)"""
        import sys
        done = {}
        vc = self
        e = self.e

        def wrap(orig):
            if orig in done:
                return done[orig]

            def f(*a, **k):
                if pre is not None:
                    c = blift(pre(vc, *a, **k))
                    if e.quick(c) is not True:
                        if e.in_discovery() or e.prove('', c).status != 'proved':
                            return orig(*a, **k)    # outside the contract: no facts
                r = orig(*a, **k) if result is None else result(vc, *a, **k)
                if post is not None:
                    e.assume(blift(post(vc, r, *a, **k)))
                return r
            f.__name__ = getattr(orig, '__name__', attr)
            done[orig] = f
            return f
        for nm, m in list(sys.modules.items()):
            if nm.startswith('ngmix') and m is not None and attr in m.__dict__ and callable(m.__dict__[attr]):
                self.patch(m, attr, wrap(m.__dict__[attr]))

    def code(self, f):
        return f

    def bare(self, cls):
        """an object of this class without the state its constructor gives"""
        o = cls.__new__(cls)
        self.bares = getattr(self, 'bares', []) + [o]
        return o

    def put(self, obj, name, value):
        """replace a private attribute; when the code has none of that name nothing is decided"""
        if not (hasattr(obj, name) or uses(type(obj), name)):
            raise Unsupported('no attribute ' + name)
        setattr(obj, name, value)

    def fresh(self, name, pos=False):
        """a new arbitrary number at every call, also in different iterations of a loop"""
        v = T.fresh('f!' + name)
        self.e.declare_local(v, lambda env, rng: abs(rng.gauss(0, 1)) if pos else rng.gauss(0.4, 1))
        if pos:
            self.e.assume(T.lt(T.ZERO, v))
        return mkreal(v)

    def ufun(self, name, pyf, facts=None):
        """an unknown function of real arguments (call-site stand-in); pyf is
        what it is in the samples"""
        e = self.e
        e.declare_fn(name, lambda r: pyf)
        if facts is not None:
            e.array_facts[name] = lambda *a: blift(facts(*[mkreal(x) for x in a]))

        def f(*a):
            t = T.fn(name, *[lift(x) for x in a])
            e.instantiate(t)
            return mkreal(t)
        return f

    # call-site contracts
    def patch(self, mod, attr, f):
        self.patches.append((mod, attr, getattr(mod, attr)))
        setattr(mod, attr, adapted(getattr(mod, attr), f))

    def unpatch(self):
        for mod, attr, v in reversed(self.patches):
            setattr(mod, attr, v)
        self.patches = []

    def patch_everywhere(self, attr, f, mods=None):
        """replace every module-level binding called attr in ngmix"""
        import sys
        for nm, m in list(sys.modules.items()):
            if nm.startswith('ngmix') and m is not None and attr in m.__dict__ and callable(m.__dict__[attr]):
                if mods is None or nm in mods:
                    self.patch(m, attr, f)

    def opaque_fexp(self):
        """call-site contract of the fast exponential: some function fexp, of
        which only fexp(x) > 0 is known to the caller"""
        e = self.e
        import math
        e.declare_fn('fexp', lambda r: math.exp)
        e.array_facts['fexp'] = lambda x: T.lt(T.ZERO, T.fn('fexp', x))

        def f(x):
            if isinstance(x, (_np.ndarray, SymArray, shims.Picked)):
                return shims.emap(f, x)
            t = T.fn('fexp', lift(x))
            e.instantiate(t)
            return mkreal(t)
        self.patch_everywhere('fexp', f)
        self.patch_everywhere('fexp_arr', f)
        self.fexp = f


def beyond(x):
    """an operation the engine's values do not have is not the program's error"""
    if isinstance(x, (TypeError, AttributeError)):
        m = str(x)
        if any("'%s'" % n in m for n in ('Sym', 'SymBool', 'SymArray', 'SymField', 'SymRecord', 'SymSeq', 'SymRange', 'SArr', 'Picked', 'Selected', 'SymFlags')):
            raise Unsupported(m)


def run_unit(unit, opts):
    """prove one unit; returns a dict"""
    import time
    t0 = time.time()
    e = Engine(seed=opts.get('seed', 1), nsamples=unit.opts.get('nsamples', 40),
               budget_s=unit.opts.get('budget', 60.0) * opts.get('scale', 1.0),
               max_paths=unit.opts.get('max_paths', 4000),
               feas_ms=unit.opts.get('feas_ms', 400),
               prove_ms=unit.opts.get('prove_ms', 4000))
    CUR[0] = e
    error = None

    def one():
        vc = VC(e, unit)
        try:
            unit.run(vc)
        except PathAbort:
            raise
        except (Unsupported, BudgetExceeded):
            raise
        except Exception as x:
            if e.in_discovery():
                for info, kind in e.loop_stack:
                    info.needs_final = True
                raise PathAbort()
            import traceback, types
            beyond(x)
            if isinstance(x, ImportError) or (isinstance(x, AttributeError)
                                              and isinstance(getattr(x, 'obj', None), types.ModuleType)):
                raise Unsupported(str(x))
            if isinstance(x, AttributeError) and any(getattr(x, 'obj', None) is o for o in getattr(vc, 'bares', ())):
                raise Unsupported(str(x))
            env = e.need_sample()
            tb = traceback.format_exc()
            e.obligations.append(Obligation(
                'no unexpected exception', 'refuted' if env is not None and not e.havocked else 'unknown',
                'exception', tb[-1500:], env))
        finally:
            vc.unpatch()
    try:
        e.explore(one)
    except Unsupported as x:
        import traceback
        error = 'unsupported: %s' % x
        if opts.get('debug'):
            traceback.print_exc()
    except BudgetExceeded as x:
        error = 'budget: %s' % x
    except RecursionError as x:
        error = 'recursion'
    except PathAbort:
        error = 'abort'
    except Exception as x:
        import traceback
        if opts.get('debug'):
            traceback.print_exc()
        error = 'internal: %s' % traceback.format_exc()[-800:]
    finally:
        CUR[0] = None
    from . import smt
    obs = []
    for o in e.obligations:
        obs.append(dict(name=o.name, status=o.status, by=o.by, detail=o.detail if o.status != 'proved' else '',
                        env=ser_env(o.env) if o.status != 'proved' and o.env is not None else None,
                        wall=round(o.wall, 3)))
    return dict(unit=unit.id, error=error, paths=e.npaths, branches=e.nbranches, obligations=obs,
                covers=e.covers, functions=sorted(e.functions), loops=e.loops_summarised,
                loop_obls=e.loop_obls, wall=time.time() - t0, stats=dict(smt.STATS),
                havocked=e.havocked)


