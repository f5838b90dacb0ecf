"""Translation to z3 / SMT-LIB and the solver front end."""
import sys
import time
import subprocess
import tempfile
import os
import pickle
import select
import signal
from fractions import Fraction

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import z3  # noqa
from . import terms as T

STATS = {'z3_queries': 0, 'z3_time': 0.0, 'cvc5_queries': 0, 'cvc5_time': 0.0}


class Trans(object):
    def __init__(self, ctx=None):
        self.memo = {}
        self.side = []
        self.apps = {}
        self.ufs = {}
        self.seen_facts = set()
        self.vars = {}

    def uf(self, name, n, bool_=False):
        k = (name, n)
        if k not in self.ufs:
            rng = z3.BoolSort() if bool_ else z3.RealSort()
            self.ufs[k] = z3.Function(name, *([z3.RealSort()] * n + [rng]))
        return self.ufs[k]

    def real(self, e):
        if e.sort() == z3.IntSort():
            return z3.ToReal(e)
        return e

    def num(self, c):
        if c.denominator == 1:
            return z3.RealVal(c.numerator)
        return z3.Q(c.numerator, c.denominator)

    def tr(self, t):
        r = self.memo.get(t.id)
        if r is None:
            stack = [(t, False)]
            while stack:
                u, done = stack.pop()
                if u.id in self.memo:
                    continue
                if done or u.op in ('sum', 'forall'):
                    self.memo[u.id] = self._tr(u)
                    continue
                stack.append((u, True))
                for x in u.args:
                    if isinstance(x, T.Term) and x.id not in self.memo:
                        stack.append((x, False))
            r = self.memo[t.id]
        return r

    def _tr(self, t):
        op = t.op
        a = t.args
        m = self.memo
        if op == 'const':
            if t.sort == 'I':
                return z3.IntVal(a[0].numerator)
            return self.num(a[0])
        if op == 'var':
            if a[1] == 'I':
                v = z3.Int(a[0])
            elif a[1] == 'B':
                v = z3.Bool(a[0])
            else:
                v = z3.Real(a[0])
            self.vars[a[0]] = v
            return v
        if op == 'bv':
            return z3.Int('bv#%d' % a[0])
        if op == 'add':
            xs = [m[x.id] for x in a]
            if t.sort != 'I':
                xs = [self.real(x) for x in xs]
            return z3.Sum(*xs) if len(xs) > 1 else xs[0]
        if op == 'mul':
            xs = [m[x.id] for x in a]
            if t.sort != 'I':
                xs = [self.real(x) for x in xs]
            r = xs[0]
            for x in xs[1:]:
                r = r * x
            return r
        if op == 'ipow':
            b = m[a[0].id]
            n = a[1]
            if t.sort != 'I':
                b = self.real(b)
            r = b
            for _ in range(abs(n) - 1):
                r = r * b
            if n < 0:
                return z3.RealVal(1) / r
            return r
        if op == 'fn':
            xs = [self.real(m[x.id]) for x in a[1:]]
            f = self.uf('f_' + a[0], len(xs))
            r = f(*xs)
            if t.sort == 'I':
                if a[0] in ('toint', 'floor'):
                    k = z3.Int('int#%d' % t.id)
                    x = xs[0]
                    if a[0] == 'floor':
                        self.side.append(z3.And(z3.ToReal(k) <= x, x < z3.ToReal(k) + 1))
                    else:
                        self.side.append(z3.If(
                            x >= 0,
                            z3.And(z3.ToReal(k) <= x, x < z3.ToReal(k) + 1),
                            z3.And(z3.ToReal(k) >= x, x > z3.ToReal(k) - 1)))
                    return k
                if a[0] in ('imod', 'idiv'):
                    p, q = m[a[1].id], m[a[2].id]
                    return (p % q) if a[0] == 'imod' else (p / q)
            self._axioms(a[0], t, xs, r)
            return r
        if op == 'bfn':
            xs = [self.real(m[x.id]) for x in a[1:]]
            return self.uf('p_' + a[0], len(xs), True)(*xs)
        if op == 'ite':
            c, x, y = [m[z.id] for z in a]
            if t.sort != 'I':
                x, y = self.real(x), self.real(y)
            return z3.If(c, x, y)
        if op in ('lt', 'le', 'eq'):
            x, y = m[a[0].id], m[a[1].id]
            if x.sort() != y.sort():
                x, y = self.real(x), self.real(y)
            return x < y if op == 'lt' else x <= y if op == 'le' else x == y
        if op == 'not':
            return z3.Not(m[a[0].id])
        if op == 'and':
            return z3.And(*[m[x.id] for x in a])
        if op == 'or':
            return z3.Or(*[m[x.id] for x in a])
        if op == 'true':
            return z3.BoolVal(True)
        if op == 'false':
            return z3.BoolVal(False)
        if op == 'sum':
            # opaque; occurrences with the same term are the same constant
            bvs = [v for v in t.fv if v.op == 'bv']
            xs = [z3.ToReal(z3.Int('bv#%d' % v.args[0])) for v in sorted(bvs, key=lambda v: v.args[0])]
            if xs:
                r = self.uf('sum#%d' % t.id, len(xs))(*xs)
            else:
                r = z3.Real('sum#%d' % t.id)
            return r
        if op == 'forall':
            return z3.Bool('forall#%d' % t.id)
        raise ValueError(op)

    def _axioms(self, name, t, xs, r):
        s = self.side
        others = self.apps.setdefault(name, [])
        if name == 'sqrt':
            x = xs[0]
            s.append(z3.Implies(x >= 0, z3.And(r >= 0, r * r == x)))
            s.append(z3.Implies(x > 0, r > 0))
        elif name == 'exp':
            x = xs[0]
            s.append(r > 0)
            s.append(r >= 1 + x)
            s.append(z3.Implies(x <= 0, r <= 1))
            s.append(z3.Implies(x < 0, r < 1))
        elif name == 'exp10':
            x = xs[0]
            s.append(r > 0)
            s.append((x >= 0) == (r >= 1))
        elif name == 'log':
            x = xs[0]
            s.append(z3.Implies(x > 0, r <= x - 1))
            s.append(z3.Implies(x > 1, r > 0))
            s.append(z3.Implies(z3.And(x > 0, x < 1), r < 0))
            s.append(z3.Implies(x > 0, (r == 0) == (x == 1)))
        elif name in ('sin', 'cos'):
            s.append(z3.And(r >= -1, r <= 1))
            o = 'cos' if name == 'sin' else 'sin'
            q = self.uf('f_' + o, 1)(xs[0])
            s.append(r * r + q * q == 1)
        elif name == 'tanh':
            x = xs[0]
            s.append(z3.And(r > -1, r < 1))
            s.append((x > 0) == (r > 0))
            s.append((x == 0) == (r == 0))
        elif name == 'arctanh':
            x = xs[0]
            s.append(z3.Implies(z3.And(x > -1, x < 1), z3.And((x > 0) == (r > 0), (x == 0) == (r == 0))))
        elif name == 'arcsin':
            x = xs[0]
            s.append(z3.Implies(z3.And(x >= -1, x <= 1), (x > 0) == (r > 0)))
        elif name == 'abs':
            x = xs[0]
            s.append(r == z3.If(x >= 0, x, -x))
        if name in ('exp', 'log', 'tanh', 'arctanh', 'exp10', 'sqrt') and len(others) < 12:
            x = xs[0]
            for y, ry in others:
                dom = z3.BoolVal(True)
                if name == 'log':
                    dom = z3.And(x > 0, y > 0)
                elif name == 'sqrt':
                    dom = z3.And(x >= 0, y >= 0)
                elif name == 'arctanh':
                    dom = z3.And(x > -1, x < 1, y > -1, y < 1)
                s.append(z3.Implies(dom, z3.And((x < y) == (r < ry), (x == y) == (r == ry))))
            others.append((x, r))


def _flat(facts):
    out = []
    for f in facts:
        if f.op == 'and':
            out.extend(_flat(f.args))
        else:
            out.append(f)
    return out


def relevant(facts, goals):
    """facts connected to the goals through shared variables / array names"""
    def syms(t):
        out = set()
        for u in T.subterms(t):
            if u.op == 'var':
                out.add(u.args[0])
            elif u.op in ('fn', 'bfn') and u.args[0] not in T._EVFN:
                out.add('@' + u.args[0])
        return out
    fs = [(f, syms(f)) for f in _flat(facts)]
    cur = set()
    for g in goals:
        cur |= syms(g)
    used = [False] * len(fs)
    changed = True
    while changed:
        changed = False
        for i, (f, s) in enumerate(fs):
            if not used[i] and (not s or s & cur):
                used[i] = True
                if not s <= cur:
                    cur |= s
                    changed = True
    return [f for (f, s), u in zip(fs, used) if u]


def _nonlinear(facts):
    for f in facts:
        for u in T.subterms(f):
            if u.op == 'mul':
                if sum(1 for x in u.args if x.op != 'const') > 1:
                    return True
            elif u.op == 'ipow' or (u.op == 'fn' and u.args[0] in ('sqrt', 'exp', 'log', 'tanh', 'arctanh')):
                return True
    return False


SLACK = 4       # a loaded machine: limits are on processor time, the clock only backs them up


def _cpu_limit(seconds):
    signal.signal(signal.SIGPROF, signal.SIG_DFL)
    signal.setitimer(signal.ITIMER_PROF, max(seconds, 0.05))


def check_sat(facts, timeout_ms=1000, want_model=False, tactic=None):
    """'sat' | 'unsat' | 'unknown', model.  Nonlinear queries run in a forked
    child because z3 does not keep to its time limit on them."""
    if not _nonlinear(facts):
        return _check_sat(facts, timeout_ms, want_model, tactic)
    t0 = time.time()
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            _cpu_limit(timeout_ms / 1000. + 0.3)
            out = pickle.dumps(_check_sat(facts, timeout_ms * SLACK, want_model, tactic))
            while out:
                n = os.write(w, out)
                out = out[n:]
            code = 0
        except BaseException:
            pass
        finally:
            os._exit(code)
    os.close(w)
    data = b''
    end = t0 + timeout_ms / 1000. * SLACK + 0.4
    try:
        while True:
            left = end - time.time()
            if left <= 0:
                break
            rd, _, _ = select.select([r], [], [], left)
            if not rd:
                break
            chunk = os.read(r, 65536)
            if not chunk:
                break
            data += chunk
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    STATS['z3_queries'] += 1
    STATS['z3_time'] += time.time() - t0
    try:
        return pickle.loads(data)
    except Exception:
        return 'unknown', None


def in_child(f, seconds):
    """f() in a forked process, None when it takes longer"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            _cpu_limit(seconds)
            out = pickle.dumps(f())
            os.write(w, out)
        except BaseException:
            pass
        finally:
            os._exit(0)
    os.close(w)
    data = b''
    try:
        rd, _, _ = select.select([r], [], [], seconds * SLACK)
        if rd:
            data = os.read(r, 65536)
    finally:
        os.close(r)
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.waitpid(pid, 0)
    try:
        return pickle.loads(data)
    except Exception:
        return None


def _check_sat(facts, timeout_ms=1000, want_model=False, tactic=None):
    t0 = time.time()
    tr = Trans()
    es = [tr.tr(f) for f in facts]
    if tactic:
        s = z3.Then(*tactic).solver() if isinstance(tactic, tuple) else z3.Tactic(tactic).solver()
    else:
        s = z3.Solver()
    s.set('timeout', int(timeout_ms))
    for e in es:
        s.add(e)
    for e in tr.side:
        s.add(e)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    STATS['z3_queries'] += 1
    STATS['z3_time'] += time.time() - t0
    if r == z3.unsat:
        return 'unsat', None
    if r == z3.sat:
        if want_model:
            return 'sat', model_env(s.model(), tr)
        return 'sat', None
    return 'unknown', None


def _val(v):
    try:
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        if z3.is_algebraic_value(v):
            a = v.approx(20)
            return float(Fraction(a.numerator_as_long(), a.denominator_as_long()))
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
    except Exception:
        pass
    return None


def model_env(m, tr):
    env = {}
    for name, v in tr.vars.items():
        x = _val(m.eval(v, model_completion=True))
        if x is not None:
            env[name] = x
    return env


def smtlib(facts):
    tr = Trans()
    es = [tr.tr(f) for f in facts]
    s = z3.Solver()
    for e in es:
        s.add(e)
    for e in tr.side:
        s.add(e)
    return s.to_smt2()


def cvc5_check(facts, timeout_ms=5000):
    t0 = time.time()
    txt = smtlib(facts)
    txt = '(set-logic ALL)\n' + txt
    fd, fn = tempfile.mkstemp(suffix='.smt2')
    os.write(fd, txt.encode())
    os.close(fd)
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % timeout_ms, '--nl-ext-tplanes', fn],
                           capture_output=True, text=True, timeout=timeout_ms / 1000. + 5)
        out = p.stdout.strip().split('\n')[0] if p.stdout else 'unknown'
    except (subprocess.TimeoutExpired, FileNotFoundError):
        out = 'unknown'
    finally:
        os.unlink(fn)
    STATS['cvc5_queries'] += 1
    STATS['cvc5_time'] += time.time() - t0
    return out if out in ('sat', 'unsat') else 'unknown'
