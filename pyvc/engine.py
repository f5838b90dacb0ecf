"""Path exploration by re-execution, obligations and their discharge."""
import sys
import os
import time
import math
import random
import zlib
import numpy as _np
from . import terms as T
from . import smt
from . import eqs
from . import ratfun
from .norm import Normalizer, TooBig


class PathAbort(BaseException):
    """the current path ends here (infeasible, or end of a loop body)"""


class Unsupported(BaseException):
    """construct outside the verifier's subset"""


class BudgetExceeded(BaseException):
    pass


class Obligation(object):
    def __init__(self, name, status, by, detail='', env=None, wall=0.0):
        self.name = name
        self.status = status     # proved | refuted | unknown
        self.by = by
        self.detail = detail
        self.env = env
        self.wall = wall


class ArrVal(object):
    """concrete interpretation of a symbolic array / function in a sample"""

    def __init__(self, f):
        self.f = f

    def __call__(self, *a):
        return self.f(*a)


EV_TOL = 1e-7


class Engine(object):
    def __init__(self, seed=1, nsamples=48, budget_s=60.0, max_paths=4000,
                 feas_ms=400, prove_ms=4000):
        self.seed = seed
        self.nsamples = nsamples
        self.budget_s = budget_s
        self.max_paths = max_paths
        self.feas_ms = feas_ms
        self.prove_ms = prove_ms
        self.nunknown = 0
        self.gens = {}
        self.envs = []
        for k in range(nsamples):
            self.envs.append({})
        self.obligations = []
        self.cache = {}
        self.npaths = 0
        self.nbranches = 0
        self.covers = {}
        self.t0 = time.time()
        self.array_facts = {}
        self.loops_summarised = 0
        self.loop_obls = 0
        self.assumed = set()
        self.in_summary = 0
        self.deadline = None
        self.njit_depth = 0
        self.nobranch = 0
        self.functions = set()

    # --------------------------------------------------------- exploring
    def explore(self, fn):
        self.stack = [()]
        self.loop_info = {}
        self.t0 = time.time()
        while self.stack:
            if self.npaths >= self.max_paths:
                raise BudgetExceeded('more than %d paths' % self.max_paths)
            if time.time() - self.t0 > self.budget_s:
                raise BudgetExceeded('more than %.0f s' % self.budget_s)
            prefix = self.stack.pop()
            self.start_path(prefix)
            try:
                fn()
                for info, kind in self.loop_stack:
                    if kind == 'body':
                        info.needs_final = True
            except PathAbort:
                pass
            self.npaths += 1

    def start_path(self, prefix):
        self.prefix = list(prefix)
        self.dec = []
        self.pc = []
        self.pcset = set()
        self.alive = list(range(len(self.envs)))
        self.signs = {}
        T.reset_fresh()
        self.njit_depth = 0
        self.path_vars = {}
        self.locals_set = set()
        self.facts_seen = set()
        self.loop_stack = []
        # invariant of the loops that fill arrays (vc.filled)
        self.filled = None
        self.trail = []
        self.ids = {}
        self.havocked = False
        self.forall = []
        self.index_terms = [T.ZERO]
        self.medians = []

    # universally quantified facts (about the iterations of completed loops)
    def add_forall(self, i, lo, hi, fact):
        self.forall.append((i, lo, hi, fact))
        for k in list(self.index_terms):
            self._instance(i, lo, hi, fact, k)

    def add_index(self, k):
        if any(k is x for x in self.index_terms):
            return
        self.index_terms.append(k)
        for i, lo, hi, fact in list(self.forall):
            self._instance(i, lo, hi, fact, k)

    def _instance(self, i, lo, hi, fact, k):
        g = T.band(T.le(lo, k), T.lt(k, hi))
        if self.quick(g) is False:
            return
        f = T.subst(fact, {i: k})
        if self.quick(g) is True:
            self.assume(f)
        else:
            self.assume(T.bor(T.bnot(g), f))

    # ----------------------------------------------------------- samples
    def declare(self, name, gen, sort='R'):
        """declare an input variable; gen(rng) yields a concrete sample"""
        v = T.var(name, sort)
        self.gens[name] = gen
        for k in self.alive:
            e = self.envs[k]
            if name not in e:
                rng = random.Random(zlib.crc32(('%s/%d/%d' % (name, k, self.seed)).encode()))
                e[name] = gen(rng, e) if getattr(gen, 'env', False) else gen(rng)
        return v

    def declare_fn(self, name, gen):
        """uninterpreted function/array `name`; gen(rng) -> callable"""
        self.gens[name] = gen
        for k in self.alive:
            e = self.envs[k]
            if name not in e:
                rng = random.Random(zlib.crc32(('%s/%d/%d' % (name, k, self.seed)).encode()))
                e[name] = gen(rng, e) if getattr(gen, 'env', False) else gen(rng)

    def declare_local(self, v, f):
        """ghost/loop variable: f(env, rng) -> value"""
        name = v.args[0]
        self.locals_set.add(v)
        for k in list(self.alive):
            e = self.envs[k]
            rng = random.Random(zlib.crc32(('%s/%d/%d' % (name, k, self.seed)).encode()))
            try:
                e[name] = f(e, rng)
            except (T.EvalError, ValueError):
                self.alive.remove(k)

    def scoped(self, assume, f, vars=()):
        """f() under further assumptions and without case splits: every branch
        in it has to be decided; what was assumed is dropped afterwards.
        None when the assumptions are contradictory"""
        save = (list(self.pc), set(self.pcset), dict(self.signs), list(self.alive), set(self.facts_seen))
        self.nobranch += 1
        try:
            try:
                for v, g in vars:
                    self.declare_local(v, g)
                for c in assume:
                    self.assume(c() if callable(c) else c)
                return f()
            except PathAbort:
                return None
        finally:
            self.nobranch -= 1
            self.pc, self.pcset, self.signs, self.alive, self.facts_seen = save

    def total(self, bounds, f, given=None):
        """the sum of f(i, j, ...) over lo <= i < hi, ..."""
        idx = [T.fresh('s', 'I') for _ in bounds]
        loc, con = [], []
        for i, (lo, hi) in zip(idx, bounds):
            loc.append((i, lambda env, rng, lo=lo, hi=hi:
                        rng.randrange(int(T.evaluate(lo, env)), int(T.evaluate(hi, env)))))
            con += [T.le(lo, i), T.lt(i, hi)]
            if self.filled is not None:
                con += [T.subst(f, {v: i}) for v, a, b, f in self.forall if a is lo and b is hi]
        c = None
        if given is not None:
            c = self.scoped(con, lambda: given(*idx), loc)
            if c is None:
                return T.ZERO
            con.append(c)
        t = self.scoped(con, lambda: f(*idx), loc)
        if t is None:
            return T.ZERO
        if c is not None:
            t = T.ite(c, t, T.ZERO)
        for i, (lo, hi) in reversed(list(zip(idx, bounds))):
            one = self.one_hot(i, lo, hi, t)
            if one is not None:
                t = one
            elif i not in t.fv and self.quick(T.le(lo, hi)) is True:
                t = T.mul(t, T.sub(hi, lo))
            else:
                t = T.sum_(i, lo, hi, t)
        return t

    def one_hot(self, i, lo, hi, t):
        """the sum over i of ite(i == k and c, x, 0), for lo <= k < hi"""
        if t.op != 'ite' or t.args[2] is not T.ZERO:
            return None
        c = t.args[0]
        for p in (c.args if c.op == 'and' else (c,)):
            if p.op == 'eq' and i in p.args:
                k = p.args[1] if p.args[0] is i else p.args[0]
                if i not in k.fv and self.quick(T.band(T.le(lo, k), T.lt(k, hi))) is True:
                    return T.subst(t, {i: k})
        return None

    def local_vars(self):
        return set(self.locals_set)

    def next_id(self, what):
        n = self.ids.get(what, 0)
        self.ids[what] = n + 1
        return n

    def in_discovery(self):
        return any(kind == 'body' for _, kind in self.loop_stack)

    def ev(self, t, k):
        return T.evaluate(t, self.envs[k])

    def filter(self, cond):
        keep = []
        for k in self.alive:
            try:
                if self.ev(cond, k):
                    keep.append(k)
            except T.EvalError:
                pass
        self.alive = keep

    # -------------------------------------------------------------- path
    def assume(self, cond):
        """add to the path condition (no check)"""
        if cond is T.TRUE:
            return
        if cond is T.FALSE:
            raise PathAbort()
        for c in (cond.args if cond.op == 'and' else (cond,)):
            if c.id in self.pcset:
                continue
            self.pcset.add(c.id)
            self.pc.append(c)
            self._note_sign(c)
            if self.filled is not None and not self.nobranch:
                self.none_of(c)
        self.filter(cond)

    def none_of(self, c):
        """a count of elements that is not positive: none of them is one"""
        if c.op in ('le', 'eq') and T.ZERO in c.args and not (c.op == 'le' and c.args[0] is T.ZERO):
            u = c.args[1] if c.args[0] is T.ZERO else c.args[0]
            if u.op == 'sum' and u.args[2].op == 'ite' and u.args[2].args[1] is T.ONE and u.args[2].args[2] is T.ZERO:
                lo, hi, body, d = u.args
                i = T.var('k!no%d' % d, 'I')
                f = T.bnot(T.subst(body.args[0], {T.bv(d): i}))
                if not any(v.op == 'bv' for v in u.fv):
                    self.add_forall(i, lo, hi, f)

    def _note_sign(self, c):
        if c.op in ('lt', 'le'):
            a, b = c.args
            if a.op == 'const':
                k = ('lower', b.id)
                self.signs[k] = max(self.signs.get(k, a.args[0]), a.args[0])
            if a is T.ZERO:
                self.signs[b.id] = self.signs.get(b.id, {'-', '0', '+'}) & (
                    {'+'} if c.op == 'lt' else {'0', '+'})
            elif b is T.ZERO:
                self.signs[a.id] = self.signs.get(a.id, {'-', '0', '+'}) & (
                    {'-'} if c.op == 'lt' else {'0', '-'})
            elif a.op == 'const' and a.args[0] > 0:
                self.signs[b.id] = {'+'}
            elif b.op == 'const' and b.args[0] < 0:
                self.signs[a.id] = {'-'}
        elif c.op == 'not' and c.args[0].op == 'eq':
            a, b = c.args[0].args
            if a is T.ZERO:
                a, b = b, a
            if b is T.ZERO:
                self.signs[a.id] = self.signs.get(a.id, {'-', '0', '+'}) & {'-', '+'}

    def sign(self, t, depth=0):
        """subset of {'-','0','+'} containing the sign of t"""
        full = {'-', '0', '+'}
        s = self.signs.get(t.id)
        base = s if s is not None else full
        if depth > 12:
            return base
        op = t.op
        a = t.args
        if op == 'const':
            return {'+'} if a[0] > 0 else {'-'} if a[0] < 0 else {'0'}
        if len(base) == 1:
            return base
        r = full
        if op == 'mul':
            # repeated factors are squares
            cnt = {}
            for x in a:
                cnt.setdefault(x.id, [x, 0])[1] += 1
            r = {'+'}
            for x, c in cnt.values():
                sx = self.sign(x, depth + 1)
                if c % 2 == 0:
                    sx = {'+'} if '0' not in sx else {'0', '+'}
                n = set()
                for p in r:
                    for q in sx:
                        n.add('0' if '0' in (p, q) else '+' if p == q else '-')
                r = n
        elif op == 'add':
            ss = [self.sign(x, depth + 1) for x in a]
            if all('-' not in x for x in ss):
                r = {'+'} if any(x == {'+'} for x in ss) else {'0', '+'}
            elif all('+' not in x for x in ss):
                r = {'-'} if any(x == {'-'} for x in ss) else {'0', '-'}
            elif len(a) == 2 and 'const' in (a[0].op, a[1].op):
                # x + c with a known lower bound of x
                x, k = (a[0], a[1]) if a[1].op == 'const' else (a[1], a[0])
                lb = self.signs.get(('lower', x.id))
                if lb is not None and lb + k.args[0] >= 0:
                    r = {'+'} if lb + k.args[0] > 0 else {'0', '+'}
        elif op == 'ipow':
            sb = self.sign(a[0], depth + 1)
            if a[1] % 2 == 0:
                r = {'+'} if '0' not in sb else {'0', '+'}
            else:
                r = set(sb)
            if a[1] < 0:
                r.discard('0')
                r = r or {'+', '-'}
        elif op == 'fn':
            nm = a[0]
            if nm in ('exp', 'exp10', 'cosh'):
                r = {'+'}
            elif nm == 'sqrt':
                sb = self.sign(a[1], depth + 1)
                r = {'+'} if sb == {'+'} else {'0', '+'}
            elif nm in ('tanh', 'arctanh', 'arcsin', 'arctan', 'sinh'):
                r = self.sign(a[1], depth + 1)
            elif nm == 'abs':
                sb = self.sign(a[1], depth + 1)
                r = {'+'} if '0' not in sb else {'0', '+'}
            f = self.array_facts.get(nm)
            if f is not None:
                self.instantiate(t)
                s = self.signs.get(t.id)
                if s is None and any(v.op == 'bv' for v in t.fv):
                    # the facts hold for every index
                    c = f(*a[1:])
                    for x in ((c.args if c.op == 'and' else (c,)) if c is not None else ()):
                        if x.op in ('lt', 'le') and x.args[0] is T.ZERO and x.args[1] is t:
                            s = (s or full) & ({'+'} if x.op == 'lt' else {'0', '+'})
                if s is not None:
                    r = r & s
        elif op == 'ite':
            r = self.sign(a[1], depth + 1) | self.sign(a[2], depth + 1)
        elif op == 'sum':
            sb = self.sign(a[2], depth + 1)
            if '-' not in sb or '+' not in sb:
                some = '0' not in sb and self.sign(T.sub(a[1], a[0]), depth + 1) == {'+'}
                r = sb if some else sb | {'0'}
        out = base & r
        return out or base

    def instantiate(self, t):
        """element facts of array reads"""
        if t.id in self.facts_seen:
            return
        self.facts_seen.add(t.id)
        f = self.array_facts.get(t.args[0])
        if f is None:
            return
        c = f(*t.args[1:])
        if c is None or c is T.TRUE:
            return
        if any(v.op == 'bv' for v in c.fv):
            return
        for x in (c.args if c.op == 'and' else (c,)):
            if x.id not in self.pcset:
                self.pcset.add(x.id)
                self.pc.append(x)
                self._note_sign(x)

    def inst_all(self, t):
        if not self.array_facts:
            return
        for u in T.subterms(t):
            if u.op == 'fn' and u.args[0] in self.array_facts:
                self.instantiate(u)

    def quick(self, c):
        """True/False/None by cheap reasoning"""
        if c is T.TRUE:
            return True
        if c is T.FALSE:
            return False
        if c.id in self.pcset:
            return True
        if T.bnot(c).id in self.pcset:
            return False
        if c.op == 'not':
            r = self.quick(c.args[0])
            return None if r is None else (not r)
        if c.op == 'and':
            rs = [self.quick(x) for x in c.args]
            if all(r is True for r in rs):
                return True
            if any(r is False for r in rs):
                return False
            return None
        if c.op == 'or':
            rs = [self.quick(x) for x in c.args]
            if any(r is True for r in rs):
                return True
            if all(r is False for r in rs):
                return False
            return None
        if c.op in ('lt', 'le', 'eq'):
            a, b = c.args
            if a is T.ZERO:
                s = {'-': '+', '+': '-', '0': '0'}
                sg = {s[x] for x in self.sign(b)}
            elif b is T.ZERO:
                sg = self.sign(a)
            else:
                sg = self.sign(T.sub(a, b))
            # sg: sign of a-b
            if c.op == 'lt':
                if sg == {'-'}:
                    return True
                if '-' not in sg:
                    return False
            elif c.op == 'le':
                if '+' not in sg:
                    return True
                if sg == {'+'}:
                    return False
            else:
                if sg == {'0'}:
                    return True
                if '0' not in sg:
                    return False
        return None

    def feasible(self, cond):
        """can cond hold on this path?  (over-approximation)"""
        q = self.quick(cond)
        if q is False:
            return False
        self.inst_all(cond)
        facts = smt.relevant(self.pc, [cond])
        if smt._nonlinear([cond]):
            q = self.norm_quick(cond, facts)
            if q is not None:
                return q
        r, env = smt.check_sat(facts + [cond], self.feas_ms, want_model=True)
        if r == 'unsat':
            return False
        if r == 'sat' and env is not None:
            self.add_sample(env)
        elif r == 'unknown':
            alt = self.polynomial_form(facts, T.bnot(cond))
            if alt is not None:
                r, env = smt.check_sat(alt, self.feas_ms * 3, want_model=True)
                if r == 'unsat':
                    return False
                if r == 'sat' and env is not None:
                    self.add_sample(env)
        return True

    def norm_quick(self, cond, facts):
        """truth of cond when its normal form is that of a fact, else None"""
        if cond.op == 'not':
            r = self.norm_quick(cond.args[0], facts)
            return None if r is None else not r
        if cond.op == 'and':
            rs = [self.norm_quick(c, facts) for c in cond.args]
            return False if any(r is False for r in rs) else None
        if cond.op not in ('lt', 'le', 'eq'):
            return None
        key = ('norm_quick', cond, tuple(facts))
        if key not in self.cache:
            self.cache[key] = self._norm_quick(cond, facts)
        return self.cache[key]

    def _norm_quick(self, cond, facts):
        try:
            n = Normalizer([f for f in facts if f.op in ('lt', 'le', 'eq', 'not')])
            k = n._cond_key(cond)
            if isinstance(k, bool):
                return k
            if k is None:
                return None
            v = n.known.get(k[0])
            if v is not None:
                return v == k[1]
            if cond.op == 'eq':
                for c in (T.lt(*cond.args), T.lt(*reversed(cond.args))):
                    k = n._cond_key(c)
                    if isinstance(k, tuple) and n.known.get(k[0]) == k[1]:
                        return False
        except (TooBig, ZeroDivisionError, RecursionError):
            pass
        return None

    def add_sample(self, env):
        if len(self.envs) > 4000:
            return
        base = {}
        k = len(self.envs)
        for name, g in self.gens.items():
            if name in env:
                base[name] = env[name]
            else:
                rng = random.Random(zlib.crc32(('%s/%d/%d' % (name, k, self.seed)).encode()))
                base[name] = g(rng, base) if getattr(g, 'env', False) else g(rng)
        for name in env:
            base.setdefault(name, env[name])
        # keep only when it really satisfies the path condition
        try:
            for c in self.pc:
                if not T.evaluate(c, base):
                    return
        except T.EvalError:
            return
        self.envs.append(base)
        self.alive.append(k)

    def branch(self, cond):
        """decide a symbolic condition; forks when both sides are feasible"""
        q = self.quick(cond)
        if q is not None:
            return q
        self.nbranches += 1
        pos = len(self.dec)
        if pos < len(self.prefix) and not self.nobranch:
            d = self.prefix[pos]
            if not isinstance(d, str):
                raise Unsupported('non-deterministic re-execution')
            self.dec.append(d)
            r = d in 'Tt'
            if d in 'TF':
                self.trail.append(cond if r else T.bnot(cond))
            self.assume(cond if r else T.bnot(cond))
            return r
        if len(self.dec) > 3000:
            raise BudgetExceeded('path too long')
        if time.time() - self.t0 > self.budget_s * 1.5:
            raise BudgetExceeded('time')
        yes = no = False
        for k in self.alive:
            try:
                if self.ev(cond, k):
                    yes = True
                else:
                    no = True
            except T.EvalError:
                pass
            if yes and no:
                break
        ncond = T.bnot(cond)
        if not yes:
            yes = self.feasible(cond)
        if not no:
            no = self.feasible(ncond)
        if not yes and not no:
            raise PathAbort()
        if self.nobranch:
            if yes and no:
                raise Unsupported('case split under a quantifier')
            return yes
        if yes and no:
            self.stack.append(tuple(self.dec) + ('F',))
            d = 'T'
            self.trail.append(cond)
        else:
            d = 't' if yes else 'f'
        self.dec.append(d)
        r = d in 'Tt'
        self.assume(cond if r else ncond)
        return r

    # -------------------------------------------------------- obligations
    def ensure(self, name, goal, hint=None):
        if self.in_discovery():
            for info, kind in self.loop_stack:
                info.needs_final = True
            if self.quick(goal) is True:
                return True
            # decided in the final round; iterations before it satisfied it
            self.assume(goal)
            return True
        o = self.prove(name, goal)
        self.obligations.append(o)
        return o.status == 'proved'

    def record(self, name, status, by, detail='', env=None):
        self.obligations.append(Obligation(name, status, by, detail, env))

    def sample_env(self):
        """a concrete input reaching this path, if one is known"""
        for k in self.alive:
            return dict(self.envs[k])
        return None

    def need_sample(self):
        if not self.alive:
            r, env = smt.check_sat(self.pc, 1500, want_model=True)
            if r == 'sat' and env:
                self.add_sample(env)
            if r == 'unsat':
                raise PathAbort()
        return self.sample_env()

    def prove(self, name, goal):
        t0 = time.time()
        if goal is T.TRUE:
            return Obligation(name, 'proved', 'simplifier')
        st = self._prove(name, goal)
        st.wall = time.time() - t0
        if name and st.status == 'unknown':
            # a unit with this many undecided obligations is not going to be decided
            self.nunknown += 1
            if self.nunknown == 10:
                self.prove_ms = min(self.prove_ms, 300)
        return st

    def numeric_refute(self, goal):
        """an alive sample on which the goal is clearly false"""
        for k in self.alive:
            try:
                if not approx_true(goal, self.envs[k]):
                    return k
            except T.EvalError:
                continue
        return None

    def rational(self, goal):
        if not T.has_inverse(goal):
            return False
        try:
            return bool(smt.in_child(lambda: ratfun.equal(goal.args[0], goal.args[1]), 2.0 + self.prove_ms / 1000.))
        except Exception:
            return False

    def _prove(self, name, goal):
        q = self.quick(goal)
        if q is True:
            return Obligation(name, 'proved', 'path condition')
        k = self.numeric_refute(goal)
        if k is not None:
            return Obligation(name, 'refuted', 'evaluation', show_goal(goal),
                              dict(self.envs[k]))
        if goal.op == 'and':
            by = set()
            for g in goal.args:
                o = self._prove(name, g)
                if o.status != 'proved':
                    return o
                by.add(o.by)
            return Obligation(name, 'proved', '+'.join(sorted(by)))
        self.inst_all(goal)
        try:
            facts = smt.relevant(self.pc, [goal])
        except RecursionError:
            facts = list(self.pc)
        if any(f.op == 'eq' for f in facts):
            m = eqs.substitution(facts, self.sign)
            if m:
                try:
                    g2 = T.subst(goal, m)
                    if g2 is T.TRUE:
                        return Obligation(name, 'proved', 'simplifier')
                    if g2 is not goal and g2.op == 'eq':
                        f2 = [T.subst(f, m) for f in facts]
                        f2 = [f for f in f2 if f is not T.TRUE]
                        n = Normalizer(f2)
                        if n.equal(g2.args[0], g2.args[1]):
                            return Obligation(name, 'proved', 'ring normaliser')
                except (TooBig, ZeroDivisionError):
                    pass
        if goal.op == 'eq':
            try:
                n = Normalizer(facts)
                if n.equal(goal.args[0], goal.args[1]):
                    return Obligation(name, 'proved', 'ring normaliser')
            except (TooBig, ZeroDivisionError):
                pass
            if self.rational(goal):
                return Obligation(name, 'proved', 'field of fractions')
            if self.sum_congruence(goal):
                return Obligation(name, 'proved', 'sum congruence')
            if self.sum_linear(goal, facts):
                return Obligation(name, 'proved', 'sums combined')
        facts = facts + self.sum_facts(facts, goal)
        ng = T.bnot(goal)
        quick_ms = min(1000, self.prove_ms)
        r, env = smt.check_sat(facts + [ng], quick_ms, want_model=True)
        if r == 'unsat':
            return Obligation(name, 'proved', 'z3')
        alt = None
        if r != 'sat' or env is None:
            alt = self.polynomial_form(facts, goal)
            if alt is not None:
                r2, env2 = smt.check_sat(alt, self.prove_ms, want_model=True)
                if r2 == 'unsat':
                    return Obligation(name, 'proved', 'ring normaliser+z3')
            r, env = smt.check_sat(facts + [ng], self.prove_ms, want_model=True,
                                   tactic=('simplify', 'solve-eqs', 'smt'))
            if r == 'unsat':
                return Obligation(name, 'proved', 'z3')
        if r != 'sat':
            for fs in ([alt] if alt is not None else []) + [facts + [ng]]:
                if smt.cvc5_check(fs, self.prove_ms) == 'unsat':
                    return Obligation(name, 'proved', 'cvc5')
        if r == 'sat' and env is not None:
            n0 = len(self.envs)
            self.add_sample(env)
            if len(self.envs) > n0:
                k = self.numeric_refute(goal)
                if k is not None:
                    return Obligation(name, 'refuted', 'z3', show_goal(goal),
                                      dict(self.envs[k]))
            full = {}
            for nm, g in self.gens.items():
                full[nm] = env[nm] if nm in env else (g(random.Random(1), full) if getattr(g, 'env', False) else g(random.Random(1)))
            return Obligation(name, 'unknown', 'z3 candidate', show_goal(goal), full)
        return Obligation(name, 'unknown', 'solvers', show_goal(goal), self.sample_env())

    def sum_congruence(self, goal):
        """two sums over the same range with equal summands: the summands are
        compared at an arbitrary index of the range, by cases of their ites"""
        a, b = goal.args
        if a.op != 'sum' or b.op != 'sum' or a.args[0] is not b.args[0] or a.args[1] is not b.args[1] \
                or self.in_summary > 1:
            return False
        lo, hi = a.args[0], a.args[1]
        i = T.var('k!cg%d' % max(a.args[3], b.args[3]), 'I')
        g = T.eq(T.subst(a.args[2], {T.bv(a.args[3]): i}), T.subst(b.args[2], {T.bv(b.args[3]): i}))
        save = (list(self.pc), set(self.pcset), dict(self.signs), set(self.facts_seen), list(self.alive))
        self.in_summary += 1
        try:
            self.alive = []
            self.assume(T.le(lo, i))
            self.assume(T.lt(i, hi))
            return self.by_cases(g, i, 0)
        except PathAbort:
            return True
        finally:
            self.in_summary -= 1
            self.pc, self.pcset, self.signs, self.facts_seen, self.alive = save

    def sum_linear(self, goal, facts):
        """a combination of sums over common ranges is zero when, for each
        range, the combination of the summands is"""
        if self.in_summary > 1 or sum(1 for u in T.subterms(goal) if u.op == 'sum') < 2:
            return False
        try:
            n = Normalizer(facts)
            p = n.psub(n.nf(goal.args[0]), n.nf(goal.args[1]))
            groups = {}
            left = {}
            for m, c in p.items():
                ss = [a for a, e in m if n.atoms[a].kind == 'S']
                if len(ss) != 1 or dict(m)[ss[0]] != 1:
                    left[m] = c
                    continue
                plo, phi, mp, nd = n.atoms[ss[0]].data
                rest = {tuple((a, e) for a, e in m if a != ss[0]): c}
                groups.setdefault((n.pkey(plo), n.pkey(phi)), []).append((n.to_term(rest), n.to_term(mp), nd, plo, phi))
            if not groups or not n.equal_poly(left, {}):
                return False
            work = []
            for g in groups.values():
                d = max(x[2] for x in g)
                i = T.var('k!sl%d' % d, 'I')
                body = T.add(*[T.mul(c, T.subst(t, {T.bv(nd): i})) for c, t, nd, _, _ in g])
                work.append((i, n.to_term(g[0][3]), n.to_term(g[0][4]), body))
        except (TooBig, ZeroDivisionError):
            return False
        for i, lo, hi, body in work:
            save = (list(self.pc), set(self.pcset), dict(self.signs), set(self.facts_seen), list(self.alive), list(self.index_terms))
            self.in_summary += 1
            try:
                self.alive = []
                self.assume(T.le(lo, i))
                self.assume(T.lt(i, hi))
                self.add_index(i)
                if not self.by_cases(T.eq(body, T.ZERO), i, 0):
                    return False
            except PathAbort:
                pass
            finally:
                self.in_summary -= 1
                self.pc, self.pcset, self.signs, self.facts_seen, self.alive, self.index_terms = save
        return True

    def by_cases(self, g, i, depth):
        if g is T.TRUE:
            return True
        c = None
        for u in T.subterms(g):
            if u.op == 'ite' and not any(x.op == 'ite' for x in T.subterms(u.args[0])):
                c = u.args[0]
                break
        if c is None or depth > 10:
            o = self._prove('', g)
            import os
            if os.environ.get('DBGC') and o.status != 'proved':
                import sys
                print('LEAF', depth, o.status, o.by, T.show(g)[:1500], file=sys.stderr)
            return o.status == 'proved'
        save = (list(self.pc), set(self.pcset), dict(self.signs), set(self.facts_seen))
        for val, lit in ((T.TRUE, c), (T.FALSE, T.bnot(c))):
            self.pc, self.pcset, self.signs, self.facts_seen = list(save[0]), set(save[1]), dict(save[2]), set(save[3])
            try:
                q = self.quick(lit)
                if q is False:
                    continue
                if q is None:
                    fs = smt.relevant(self.pc, [lit])
                    if smt.check_sat(fs + [lit], 300)[0] == 'unsat':
                        continue
                self.assume(lit)
            except PathAbort:
                continue
            h = T.replace(g, {c: val, T.bnot(c): T.bnot(val)})
            if val is T.TRUE and c.op == 'eq':
                x, y = c.args
                if x is i and y.op == 'const':
                    h = T.subst(h, {i: y})
                elif y is i and x.op == 'const':
                    h = T.subst(h, {i: x})
            if not self.by_cases(h, i, depth + 1):
                return False
        return True

    def polynomial_form(self, facts, goal):
        """facts and negated goal with denominators cleared, as z3 input"""
        try:
            n = Normalizer(())
            out = []
            for f in facts:
                g = self._clear_cond(n, f)
                if g is not None:
                    out.append(g)
            g = self._clear_cond(n, T.bnot(goal))
            if g is None:
                return None
            out.append(g)
            return out
        except (TooBig, ZeroDivisionError, RecursionError):
            return None

    def _clear_cond(self, n, c):
        if c.op in ('and', 'or'):
            xs = [self._clear_cond(n, x) for x in c.args]
            if any(x is None for x in xs):
                return None
            return T.band(*xs) if c.op == 'and' else T.bor(*xs)
        if c.op == 'not':
            x = self._clear_cond(n, c.args[0])
            return None if x is None else T.bnot(x)
        if c.op not in ('lt', 'le', 'eq'):
            return c
        if any(u.op == 'ite' for u in T.subterms(c)):
            return c
        p = n.psub(n.nf(c.args[1]), n.nf(c.args[0]))
        num, den = n.clear(p)
        # Laurent negative powers of plain atoms
        ex = {}
        for m in num:
            for a, e in m:
                if e < 0:
                    ex[a] = max(ex.get(a, 0), -e)
        # multiply by even powers so the sign is unchanged
        t = n.to_term(num)
        if ex:
            fac = {(): 1}
            for a, e in ex.items():
                e2 = e + (e % 2)
                fac = n.pmul(fac, {((a, e2),): 1})
            num = n.pmul(num, fac)
        t = n.to_term(num)
        if den is not None and c.op != 'eq':
            t = T.mul(t, n.to_term(den))
        return {'lt': T.lt, 'le': T.le, 'eq': T.eq}[c.op](T.ZERO, t)

    def sum_facts(self, facts, goal):
        """sum >= 0 facts for sums whose body is provably >= 0"""
        out = []
        seen = set()
        if self.in_summary > 2:
            return out
        for f in list(facts) + [goal]:
            for u in T.subterms(f):
                if u.op == 'sum' and u.id not in seen and not any(v.op == 'bv' for v in u.fv):
                    seen.add(u.id)
                    if self.nonneg_sum(u):
                        out.append(T.le(T.ZERO, u))
        return out

    def count_facts(self, t):
        """a sum of non-negative integers over a range is at least what is
        summed before an index of that range plus the summand there"""
        work, seen, out = [t], set(), []
        while work:
            for u in T.subterms(work.pop()):
                if u.op != 'sum' or u.sort != 'I' or u.id in seen or any(v.op == 'bv' for v in u.fv):
                    continue
                seen.add(u.id)
                if not self.nonneg_sum(u):
                    continue
                out.append(T.le(T.ZERO, u))
                lo, hi, body, d = u.args
                i = T.var('k!cf%d' % d, 'I')
                b = T.subst(body, {T.bv(d): i})
                for k in list(self.index_terms):
                    if self.quick(T.band(T.le(lo, k), T.lt(k, hi))) is not True:
                        continue
                    bk = T.subst(b, {i: k})
                    part = T.sum_(i, lo, k, b)
                    out += [T.le(T.add(part, bk), u), T.le(T.ZERO, part), T.le(T.ZERO, bk)]
                    work.append(bk)
        for f in out:
            self.assume(f)

    def nonneg_sum(self, u):
        key = ('nn', u.id)
        if key in self.cache:
            return self.cache[key]
        lo, hi, body, d = u.args
        i = T.var('k!nn%d' % d, 'I')
        b = T.subst(body, {T.bv(d): i})
        save = (list(self.pc), set(self.pcset), dict(self.signs), set(self.facts_seen), list(self.alive))
        self.in_summary += 1
        try:
            self.alive = []
            self.assume(T.le(lo, i))
            self.assume(T.lt(i, hi))
            self.inst_all(b)
            g = T.le(T.ZERO, b)
            r = self.quick(g)
            if r is not True:
                fs = smt.relevant(self.pc, [g])
                r = smt.check_sat(fs + [T.bnot(g)], 800)[0] == 'unsat'
        except PathAbort:
            r = True
        finally:
            self.in_summary -= 1
            self.pc, self.pcset, self.signs, self.facts_seen, self.alive = save
        self.cache[key] = bool(r)
        return bool(r)

    def cover(self, name):
        """reachability guard: this point is reached with a concrete sample"""
        e = self.covers.setdefault(name, 0)
        if e == 0:
            env = self.need_sample()
            if env is not None:
                self.covers[name] = 1


FULL = os.environ.get('PYVC_FULL')


def show_goal(g):
    if FULL:
        return T.show(g, -40)
    s = T.show(g)
    return s if len(s) < 600 else s[:600] + '...'


def approx_true(g, env):
    """truth of goal g in env, with tolerance in favour of truth"""
    op = g.op
    if op == 'and':
        return all(approx_true(x, env) for x in g.args)
    if op == 'or':
        return any(approx_true(x, env) for x in g.args)
    if op == 'not' and g.args[0].op in ('and', 'or'):
        xs = [T.bnot(x) for x in g.args[0].args]
        return approx_true(T.bor(*xs) if g.args[0].op == 'and' else T.band(*xs), env)
    if op == 'not' and g.args[0].op == 'eq':
        return True if T.evaluate(g, env) else True
    if op in ('lt', 'le', 'eq'):
        memo = {}
        a = T.evaluate(g.args[0], env, memo)
        b = T.evaluate(g.args[1], env, memo)
        tol = EV_TOL * (abs(a) + abs(b)) + 1e-12
        # magnitude of additive parts (cancellation)
        for x in g.args:
            if x.op == 'add':
                for y in x.args:
                    try:
                        tol += EV_TOL * 1e-3 * abs(T.evaluate(y, env, memo))
                    except T.EvalError:
                        pass
        if op == 'eq':
            return abs(a - b) <= tol
        return a <= b + tol
    return T.evaluate(g, env)


CUR = [None]


def cur():
    e = CUR[0]
    if e is None:
        raise Unsupported('no engine')
    return e
