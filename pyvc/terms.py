"""Hash-consed terms over mathematical reals, integers and booleans."""
from fractions import Fraction
import math

_table = {}
_counter = [0]


class Term(object):
    __slots__ = ('op', 'args', 'id', 'sort', 'depth', 'fv', '__weakref__')

    def __repr__(self):
        return show(self)


def _mk(op, args, sort):
    key = (op, tuple(a.id if isinstance(a, Term) else ('c', a) for a in args))
    t = _table.get(key)
    if t is None:
        t = Term()
        t.op = op
        t.args = args
        t.sort = sort
        _counter[0] += 1
        t.id = _counter[0]
        # depth: nesting depth of sums (for canonical bound variables)
        d = 0
        for a in args:
            if isinstance(a, Term) and a.depth > d:
                d = a.depth
        if op in ('sum', 'forall'):
            d += 1
        t.depth = d
        if op in ('var', 'bv'):
            t.fv = frozenset((t,))
        else:
            f = frozenset()
            for a in args:
                if isinstance(a, Term) and a.fv:
                    f = f | a.fv if f else a.fv
            if op in ('sum', 'forall'):
                bd = args[3]
                f = frozenset(v for v in f if not (v.op == 'bv' and v.args[0] == bd))
            t.fv = f
        _table[key] = t
    return t


def const(x):
    if isinstance(x, bool):
        x = int(x)
    if not isinstance(x, Fraction):
        x = Fraction(x)
    return _mk('const', (x,), 'I' if x.denominator == 1 else 'R')


ZERO = const(0)
ONE = const(1)
MONE = const(-1)
TRUE = _mk('true', (), 'B')
FALSE = _mk('false', (), 'B')


def var(name, sort='R'):
    return _mk('var', (name, sort), sort)


def bv(depth):
    return _mk('bv', (depth,), 'I')


_fresh = {}


def fresh(name, sort='R'):
    n = _fresh.get(name, 0) + 1
    _fresh[name] = n
    return var('%s!%d' % (name, n), sort)


def reset_fresh():
    _fresh.clear()


def is_const(t):
    return t.op == 'const'


def _numsort(args):
    for a in args:
        if a.sort != 'I':
            return 'R'
    return 'I'


def add(*args):
    c = Fraction(0)
    rest = []
    for a in args:
        if a.op == 'const':
            c += a.args[0]
        elif a.op == 'add':
            for b in a.args:
                if b.op == 'const':
                    c += b.args[0]
                else:
                    rest.append(b)
        else:
            rest.append(a)
    if not rest:
        return const(c)
    if c != 0:
        rest.append(const(c))
    if len(rest) == 1:
        return rest[0]
    return _mk('add', tuple(rest), _numsort(rest))


def mul(*args):
    c = Fraction(1)
    rest = []
    for a in args:
        if a.op == 'const':
            c *= a.args[0]
        elif a.op == 'mul':
            for b in a.args:
                if b.op == 'const':
                    c *= b.args[0]
                else:
                    rest.append(b)
        else:
            rest.append(a)
    if c == 0:
        return ZERO
    if not rest:
        return const(c)
    if c != 1:
        rest.insert(0, const(c))
    if len(rest) == 1:
        return rest[0]
    return _mk('mul', tuple(rest), _numsort(rest))


def neg(a):
    return mul(MONE, a)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def ipow(a, n):
    if n == 0:
        return ONE
    if n == 1:
        return a
    if a.op == 'const':
        if a.args[0] == 0 and n < 0:
            raise ZeroDivisionError
        return const(a.args[0] ** n)
    if a.op == 'ipow':
        return ipow(a.args[0], a.args[1] * n)
    if a.op == 'fn' and n % 2 == 0 and a.args[0] == 'sqrt':
        return ipow(a.args[1], n // 2)      # a square root is only taken where its argument is not negative
    return _mk('ipow', (a, n), 'I' if (a.sort == 'I' and n > 0) else 'R')


def has_inverse(t):
    return any(u.op == 'ipow' and u.args[1] < 0 for u in subterms(t))


def div(a, b):
    return mul(a, ipow(b, -1))


def diff(t, x):
    """derivative of t with respect to the variable x"""
    memo = {}

    def go(u):
        if x not in u.fv:
            return ZERO
        if u is x:
            return ONE
        r = memo.get(u.id)
        if r is not None:
            return r
        if u.op == 'add':
            r = add(*[go(a) for a in u.args])
        elif u.op == 'mul':
            out = []
            for k, a in enumerate(u.args):
                d = go(a)
                if d is not ZERO:
                    out.append(mul(*(u.args[:k] + (d,) + u.args[k + 1:])))
            r = add(*out) if out else ZERO
        elif u.op == 'ipow':
            a, n = u.args
            r = mul(const(n), ipow(a, n - 1), go(a))
        elif u.op == 'ite':
            if x in u.args[0].fv:
                raise ValueError('derivative of a case distinction')
            r = ite(u.args[0], go(u.args[1]), go(u.args[2]))
        elif u.op == 'fn' and len(u.args) == 2:
            a = u.args[1]
            nm = u.args[0]
            d = {
                'sqrt': lambda: ipow(mul(const(2), u), -1),
                'exp': lambda: u,
                'log': lambda: ipow(a, -1),
                'sin': lambda: fn('cos', a),
                'cos': lambda: neg(fn('sin', a)),
                'arcsin': lambda: ipow(sqrt(sub(ONE, ipow(a, 2))), -1),
                'arctan': lambda: ipow(add(ONE, ipow(a, 2)), -1),
                'tanh': lambda: sub(ONE, ipow(u, 2)),
                'arctanh': lambda: ipow(sub(ONE, ipow(a, 2)), -1),
            }.get(nm)
            if d is None:
                raise ValueError('derivative of ' + nm)
            r = mul(d(), go(a))
        else:
            raise ValueError('derivative of ' + u.op)
        memo[u.id] = r
        return r
    return go(t)


INT_FNS = ('floor', 'toint', 'imod', 'idiv')


def fn(name, *args):
    r = _simp_fn(name, args)
    if r is not None:
        return r
    sort = 'I' if name in INT_FNS else 'R'
    return _mk('fn', (name,) + tuple(args), sort)


def bfn(name, *args):
    """uninterpreted predicate"""
    return _mk('bfn', (name,) + tuple(args), 'B')


def _linear_in(t, fname):
    """t == c * fname(x)?  return (c, x)"""
    if t.op == 'fn' and t.args[0] == fname:
        return Fraction(1), t.args[1]
    if t.op == 'mul' and len(t.args) == 2 and t.args[0].op == 'const':
        u = t.args[1]
        if u.op == 'fn' and u.args[0] == fname:
            return t.args[0].args[0], u.args[1]
    return None


def sqrt(x):
    return fn('sqrt', x)


def _exact_root(fr):
    n, d = fr.numerator, fr.denominator
    rn, rd = math.isqrt(n), math.isqrt(d)
    if rn * rn == n and rd * rd == d:
        return Fraction(rn, rd)
    return None


def _negative_form(t):
    """canonical choice between t and -t"""
    if t.op == 'const':
        return t.args[0] < 0
    if t.op == 'mul':
        return t.args[0].op == 'const' and t.args[0].args[0] < 0
    if t.op == 'add':
        return all(_negative_form(x) for x in t.args) or (
            _negative_form(t.args[0]) and not all(_negative_form(neg(x)) for x in t.args))
    return False


def _simp_fn(name, args):
    if name in ('sin', 'tanh', 'arctanh', 'arcsin', 'arctan', 'sinh') and _negative_form(args[0]):
        return neg(fn(name, neg(args[0])))
    if name in ('cos', 'cosh') and _negative_form(args[0]):
        return fn(name, neg(args[0]))
    if name == 'sqrt':
        a = args[0]
        if a.op == 'const' and a.args[0] >= 0:
            r = _exact_root(a.args[0])
            if r is not None:
                return const(r)
    elif name == 'exp':
        a = args[0]
        if a is ZERO:
            return ONE
        if a.op == 'fn' and a.args[0] == 'log':
            return a.args[1]
    elif name == 'log':
        a = args[0]
        if a is ONE:
            return ZERO
        if a.op == 'fn' and a.args[0] == 'exp':
            return a.args[1]
    elif name in ('sin', 'tanh', 'arctanh', 'arcsin', 'arctan'):
        if args[0] is ZERO:
            return ZERO
        if name == 'tanh':
            m = _linear_in(args[0], 'arctanh')
            if m is not None:
                c, x = m
                if c == 1:
                    return x
                if c == 2:
                    # tanh(2 artanh x) = 2x/(1+x^2)      [lemma tanh_double]
                    return div(mul(const(2), x), add(ONE, ipow(x, 2)))
                if c == Fraction(1, 2):
                    # tanh(artanh(x)/2) = x/(1+sqrt(1-x^2))  [lemma tanh_half]
                    return div(x, add(ONE, sqrt(sub(ONE, ipow(x, 2)))))
        if name == 'arctanh':
            if args[0].op == 'fn' and args[0].args[0] == 'tanh':
                return args[0].args[1]
        if name == 'sin' and args[0].op == 'fn' and args[0].args[0] == 'arcsin':
            return args[0].args[1]
    elif name == 'cos':
        if args[0] is ZERO:
            return ONE
    elif name in ('toint', 'floor'):
        a = args[0]
        if a.sort == 'I':
            return a
        if a.op == 'const':
            return const(math.floor(a.args[0]) if name == 'floor'
                         else math.trunc(a.args[0]))
    elif name == 'abs':
        a = args[0]
        if a.op == 'const':
            return const(abs(a.args[0]))
    return None


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if a.sort == 'B' or b.sort == 'B':
        return bor(band(c, a), band(bnot(c), b))
    if a.op == 'ite' and a.args[2] is b:
        return ite(band(c, a.args[0]), a.args[1], b)
    return _mk('ite', (c, a, b), _numsort((a, b)))


# ---- booleans
def lt(a, b):
    if a is b:
        return FALSE
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.args[0] < b.args[0] else FALSE
    return _mk('lt', (a, b), 'B')


def le(a, b):
    if a is b:
        return TRUE
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.args[0] <= b.args[0] else FALSE
    return _mk('le', (a, b), 'B')


def eq(a, b):
    if a is b:
        return TRUE
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.args[0] == b.args[0] else FALSE
    if a.id > b.id:
        a, b = b, a
    return _mk('eq', (a, b), 'B')


def bnot(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    if a.op == 'lt':
        return le(a.args[1], a.args[0])
    if a.op == 'le':
        return lt(a.args[1], a.args[0])
    return _mk('not', (a,), 'B')


def band(*args):
    out = []
    seen = set()
    for a in args:
        if a is TRUE:
            continue
        if a is FALSE:
            return FALSE
        for b in (a.args if a.op == 'and' else (a,)):
            if b.id not in seen:
                seen.add(b.id)
                out.append(b)
    for b in out:
        if bnot(b).id in seen:
            return FALSE
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return _mk('and', tuple(out), 'B')


def bor(*args):
    out = []
    seen = set()
    for a in args:
        if a is FALSE:
            continue
        if a is TRUE:
            return TRUE
        for b in (a.args if a.op == 'or' else (a,)):
            if b.id not in seen:
                seen.add(b.id)
                out.append(b)
    for b in out:
        if bnot(b).id in seen:
            return TRUE
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return _mk('or', tuple(out), 'B')


def implies(a, b):
    return bor(bnot(a), b)


def iff(a, b):
    return bor(band(a, b), band(bnot(a), bnot(b)))


def sum_(i, lo, hi, body):
    """sum over integer i (a var term) in [lo, hi) of body"""
    if body is ZERO:
        return ZERO
    if lo.op == 'const' and hi.op == 'const' and hi.args[0] <= lo.args[0]:
        return ZERO
    d = body.depth + 1
    b = subst(body, {i: bv(d)})
    # the depth of lo/hi must not exceed so that bv numbering is canonical
    t = _mk('sum', (lo, hi, b, d), 'R' if b.sort != 'I' else 'I')
    return t


def forall(i, lo, hi, body):
    if body is TRUE:
        return TRUE
    d = body.depth + 1
    b = subst(body, {i: bv(d)})
    return _mk('forall', (lo, hi, b, d), 'B')


def subst(t, m, memo=None):
    """substitute var/bv terms (keys of m) in t"""
    if not m:
        return t
    if memo is None:
        memo = {}
    keys = frozenset(m)
    return _subst(t, m, keys, memo)


def _subst(t, m, keys, memo):
    if t in m:
        return m[t]
    if not (t.fv & keys):
        return t
    r = memo.get(t.id)
    if r is not None:
        return r
    op = t.op
    a = [_subst(x, m, keys, memo) if isinstance(x, Term) else x for x in t.args]
    r = rebuild(op, a, t)
    memo[t.id] = r
    return r


def replace(t, m):
    """replace arbitrary subterms (keys of m)"""
    memo = {}

    def go(u):
        if u in m:
            return m[u]
        r = memo.get(u.id)
        if r is not None:
            return r
        a = [go(x) if isinstance(x, Term) else x for x in u.args]
        r = u if all(p is q for p, q in zip(a, u.args)) else rebuild(u.op, a, u)
        memo[u.id] = r
        return r
    return go(t)


def rebuild(op, a, t=None):
    if op == 'add':
        return add(*a)
    if op == 'mul':
        return mul(*a)
    if op == 'ipow':
        return ipow(*a)
    if op == 'fn':
        return fn(*a)
    if op == 'bfn':
        return bfn(*a)
    if op == 'ite':
        return ite(*a)
    if op == 'lt':
        return lt(*a)
    if op == 'le':
        return le(*a)
    if op == 'eq':
        return eq(*a)
    if op == 'not':
        return bnot(*a)
    if op == 'and':
        return band(*a)
    if op == 'or':
        return bor(*a)
    if op in ('sum', 'forall'):
        lo, hi, b, d = a
        nd = b.depth + 1
        if nd != d:
            # renumber the bound variable
            b = subst(b, {bv(d): bv(nd)})
        if op == 'sum':
            if b is ZERO:
                return ZERO
            return _mk('sum', (lo, hi, b, nd), t.sort)
        return _mk('forall', (lo, hi, b, nd), 'B')
    return _mk(op, tuple(a), t.sort)


def subterms(t, seen=None):
    """all distinct subterms (post-order)"""
    if seen is None:
        seen = {}
    stack = [(t, False)]
    out = []
    while stack:
        u, done = stack.pop()
        if done:
            out.append(u)
            continue
        if u.id in seen:
            continue
        seen[u.id] = u
        stack.append((u, True))
        for a in u.args:
            if isinstance(a, Term):
                stack.append((a, False))
    return out


def show(t, depth=0):
    if depth > 12:
        return '...'
    op = t.op
    s = lambda x: show(x, depth + 1)
    if op == 'const':
        c = t.args[0]
        if c.denominator == 1:
            return str(c.numerator)
        return repr(float(c))
    if op == 'var':
        return t.args[0]
    if op == 'bv':
        return '#%d' % t.args[0]
    if op == 'add':
        return '(' + ' + '.join(s(a) for a in t.args) + ')'
    if op == 'mul':
        return '(' + '*'.join(s(a) for a in t.args) + ')'
    if op == 'ipow':
        return '%s^%d' % (s(t.args[0]), t.args[1])
    if op in ('fn', 'bfn'):
        return '%s(%s)' % (t.args[0], ', '.join(s(a) for a in t.args[1:]))
    if op == 'ite':
        return 'ite(%s, %s, %s)' % tuple(s(a) for a in t.args)
    if op in ('lt', 'le', 'eq'):
        return '(%s %s %s)' % (s(t.args[0]), {'lt': '<', 'le': '<=', 'eq': '=='}[op], s(t.args[1]))
    if op == 'not':
        return '!(%s)' % s(t.args[0])
    if op in ('and', 'or'):
        return '(' + (' & ' if op == 'and' else ' | ').join(s(a) for a in t.args) + ')'
    if op in ('sum', 'forall'):
        return '%s[#%d=%s..%s](%s)' % (op.upper(), t.args[3], s(t.args[0]), s(t.args[1]), s(t.args[2]))
    return op


# ---- numeric evaluation
class EvalError(Exception):
    pass


def _safe_log(x):
    return math.log(x)


_EVFN = {
    'sqrt': math.sqrt, 'exp': math.exp, 'log': math.log, 'sin': math.sin,
    'cos': math.cos, 'tan': math.tan, 'tanh': math.tanh, 'arctanh': math.atanh,
    'arcsin': math.asin, 'arccos': math.acos, 'arctan': math.atan,
    'arctan2': math.atan2, 'floor': math.floor, 'toint': math.trunc,
    'abs': abs, 'pow': lambda a, b: a ** b,
    'imod': lambda a, b: a % b, 'idiv': lambda a, b: a // b,
    'exp10': lambda a: 10.0 ** a,
    'erf': math.erf, 'cosh': math.cosh, 'sinh': math.sinh,
}


def evaluate(t, env, memo=None):
    """evaluate numerically; env: {var name: value or callable(for arrays)}"""
    if memo is None:
        memo = {}
    try:
        return _ev(t, env, memo, {})
    except (ValueError, OverflowError, ZeroDivisionError, KeyError, IndexError,
            TypeError) as e:
        raise EvalError(repr(e))


def _ev(t, env, memo, bvs):
    closed = not bvs or not any(v.op == 'bv' for v in t.fv)
    if closed and t.id in memo:
        return memo[t.id]
    op = t.op
    a = t.args
    if op == 'const':
        c = a[0]
        r = int(c) if c.denominator == 1 else float(c)
    elif op == 'var':
        r = env[a[0]]
    elif op == 'bv':
        return bvs[a[0]]
    elif op == 'add':
        r = 0.0
        isint = t.sort == 'I'
        if isint:
            r = 0
        for x in a:
            r = r + _ev(x, env, memo, bvs)
    elif op == 'mul':
        r = 1
        for x in a:
            r = r * _ev(x, env, memo, bvs)
    elif op == 'ipow':
        b = _ev(a[0], env, memo, bvs)
        r = b ** a[1] if a[1] > 0 else 1.0 / (b ** (-a[1]))
    elif op == 'fn':
        f = _EVFN.get(a[0])
        xs = [_ev(x, env, memo, bvs) for x in a[1:]]
        if f is not None:
            r = f(*xs)
        else:
            r = env[a[0]](*xs)
    elif op == 'bfn':
        xs = [_ev(x, env, memo, bvs) for x in a[1:]]
        r = bool(env[a[0]](*xs))
    elif op == 'ite':
        c = _ev(a[0], env, memo, bvs)
        r = _ev(a[1] if c else a[2], env, memo, bvs)
    elif op == 'lt':
        r = _ev(a[0], env, memo, bvs) < _ev(a[1], env, memo, bvs)
    elif op == 'le':
        r = _ev(a[0], env, memo, bvs) <= _ev(a[1], env, memo, bvs)
    elif op == 'eq':
        r = _ev(a[0], env, memo, bvs) == _ev(a[1], env, memo, bvs)
    elif op == 'not':
        r = not _ev(a[0], env, memo, bvs)
    elif op == 'and':
        r = all(_ev(x, env, memo, bvs) for x in a)
    elif op == 'or':
        r = any(_ev(x, env, memo, bvs) for x in a)
    elif op == 'true':
        r = True
    elif op == 'false':
        r = False
    elif op in ('sum', 'forall'):
        lo = int(_ev(a[0], env, memo, bvs))
        hi = int(_ev(a[1], env, memo, bvs))
        if hi - lo > 4000:
            raise EvalError('sum too long')
        b2 = dict(bvs)
        if op == 'sum':
            r = 0.0 if t.sort == 'R' else 0
            for k in range(lo, hi):
                b2[a[3]] = k
                r = r + _ev(a[2], env, memo, b2)
        else:
            r = True
            for k in range(lo, hi):
                b2[a[3]] = k
                if not _ev(a[2], env, memo, b2):
                    r = False
                    break
    else:
        raise EvalError('cannot evaluate ' + op)
    if isinstance(r, float) and (r != r or r in (math.inf, -math.inf)):
        raise EvalError('not finite')
    if closed:
        memo[t.id] = r
    return r


def has_inverse(t):
    seen = set()
    st = [t]
    while st:
        u = st.pop()
        if u.id in seen:
            continue
        seen.add(u.id)
        if u.op == 'ipow' and u.args[1] < 0:
            return True
        st.extend(x for x in u.args if isinstance(x, Term))
    return False
