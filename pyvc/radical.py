"""Simplification of square roots by factoring (sympy does the polynomial
arithmetic; every rewriting uses sqrt(f^2 r) = |f| sqrt(r), with the sign of f
taken from the path condition)."""
import sys
from fractions import Fraction
import math
from . import terms as T
from . import smt
from .norm import Normalizer, TooBig

_sp = [None]


def sympy():
    if _sp[0] is None:
        import sympy as s
        _sp[0] = s
    return _sp[0]


def path_norm(e):
    n = getattr(e, '_pnorm', None)
    if n is None or n[0] is not e.pc or n[1] > len(e.pc):
        n = [e.pc, 0, Normalizer(())]
        e._pnorm = n
    if n[1] < len(e.pc):
        new = e.pc[n[1]:]
        n[1] = len(e.pc)
        try:
            n[2]._assume(new)
        except (TooBig, ZeroDivisionError, RecursionError):
            pass
    return n[2]


def to_sym(n, p, syms):
    sp = sympy()
    out = []
    for m, c in p.items():
        x = sp.Rational(c.numerator, c.denominator)
        for a, e in m:
            s = syms.get(a)
            if s is None:
                s = syms[a] = sp.Symbol('a%d' % a)
            x = x * s ** e
        out.append(x)
    return sp.Add(*out)


def from_poly(p, back):
    """sympy Poly -> polynomial dict"""
    out = {}
    gens = p.gens
    for mon, c in p.terms():
        m = tuple(sorted((back[g], int(k)) for g, k in zip(gens, mon) if k))
        out[m] = Fraction(int(c.p), int(c.q))
    return out


def positive(e, t):
    """True if t > 0 on the path, False if t < 0, None otherwise"""
    s = e.sign(t)
    if s == {'+'}:
        return True
    if s == {'-'}:
        return False
    key = ('pos', t.id, len(e.pc), tuple(c.id for c in e.pc[-3:]))
    if key in e.cache:
        return e.cache[key]
    r = None
    yes = no = 0
    for k in e.alive[:12]:
        try:
            v = e.ev(t, k)
        except T.EvalError:
            continue
        if v > 0:
            yes += 1
        elif v < 0:
            no += 1
        else:
            yes += 1
            no += 1
    if not (yes and no):
        fs = smt.relevant(e.pc, [t])
        if no == 0 and smt.check_sat(fs + [T.le(t, T.ZERO)], 400)[0] == 'unsat':
            r = True
        elif yes == 0 and smt.check_sat(fs + [T.le(T.ZERO, t)], 400)[0] == 'unsat':
            r = False
    e.cache[key] = r
    return r


def nonneg(e, t):
    """True: t >= 0, False: t <= 0 on the path"""
    s = e.sign(t)
    if '-' not in s:
        return True
    if '+' not in s:
        return False
    key = ('nng', t.id, len(e.pc), tuple(c.id for c in e.pc[-3:]))
    if key in e.cache:
        return e.cache[key]
    r = None
    yes = no = 0
    for k in e.alive[:12]:
        try:
            v = e.ev(t, k)
        except T.EvalError:
            continue
        if v > 0:
            yes += 1
        elif v < 0:
            no += 1
    if not (yes and no):
        fs = smt.relevant(e.pc, [t])
        if no == 0 and smt.check_sat(fs + [T.lt(t, T.ZERO)], 400)[0] == 'unsat':
            r = True
        elif yes == 0 and smt.check_sat(fs + [T.lt(T.ZERO, t)], 400)[0] == 'unsat':
            r = False
    e.cache[key] = r
    return r


def simp_sqrt(e, t):
    """term equal to sqrt(t) on the current path (t >= 0 there)"""
    key = ('sqrt', t.id, len(e.pc), tuple(c.id for c in e.pc[-3:]))
    if key in e.cache:
        return e.cache[key]
    r = None
    try:
        r = _simp(e, t)
    except (TooBig, ZeroDivisionError, RecursionError):
        r = None
    if r is None:
        r = T.sqrt(t)
    e.cache[key] = r
    return r


def rawmul(p, ex):
    out = {}
    for m, c in p.items():
        d = dict(m)
        for a, k in ex.items():
            d[a] = d.get(a, 0) + k
            if d[a] == 0:
                del d[a]
        out[tuple(sorted(d.items()))] = c
    return out


def _factor(e, t, limit=600):
    """(n, p, coefficient, [(factor, exponent)]) of t on the path, or a term
    whose root is taken as it stands, or None"""
    if t.op in ('const',):
        return t
    if t.op in ('var', 'fn') and t.op != 'ite':
        return t
    if any(u.op in ('sum', 'ite') for u in T.subterms(t)):
        return t
    n = path_norm(e)
    p = n.nf(t)
    if not p:
        return T.ZERO
    if len(p) > 400:
        return None
    # inverse-polynomial atoms over radicals are kept as generators
    ex = {}
    keepP = {}
    for m in p:
        for a, k in m:
            at = n.atoms[a]
            if at.kind == 'P' and k < 0:
                d = ex if not any(n.atoms[b].kind == 'fn' and n.atoms[b].data[0] == 'sqrt'
                                  for mm in at.data for b, _ in mm) else keepP
                d[a] = max(d.get(a, 0), -k)
    N = n._clear_with(p, ex) if ex else p
    D = n._den(ex) if ex else None
    if keepP:
        q = {}
        for m, c in N.items():
            mm = dict(m)
            for a, k in keepP.items():
                mm[a] = mm.get(a, 0) + k
                if mm[a] == 0:
                    del mm[a]
            q[tuple(sorted(mm.items()))] = c
        N = q
        fac = {tuple(sorted(keepP.items())): Fraction(1)}
        if D is None:
            D = fac
        else:
            D = {tuple(sorted(dict(m + tuple(keepP.items())).items())): c for m, c in D.items()}
    # Laurent negative powers
    ex = {}
    for m in N:
        for a, k in m:
            if k < 0:
                ex[a] = max(ex.get(a, 0), -k)
    if ex:
        N = rawmul(N, ex)
        D = rawmul(D if D is not None else {(): Fraction(1)}, ex)
    if any(k < 0 for m in N for a, k in m):
        return None
    if D is None:
        D = {(): Fraction(1)}
    sp = sympy()
    syms = {}
    sN, sD = to_sym(n, N, syms), to_sym(n, D, syms)
    if not syms:
        return n.to_term(p)
    gens = list(syms.values())
    back = {s: a for a, s in syms.items()}
    PN, PD = sp.Poly(sN, *gens, domain='QQ'), sp.Poly(sD, *gens, domain='QQ')
    if PN.total_degree() > 24 or len(PN.terms()) > limit or len(PD.terms()) > limit:
        return None
    if not PD.is_ground:
        PN, PD = PN.cancel(PD, include=True)
    coef = Fraction(1)
    out = []
    for P, sgn in ((PN, 1), (PD, -1)):
        c, fs = sp.factor_list(P)[0:2] if not P.is_ground else (P.LC(), [])
        c = sp.Rational(c)
        coef *= Fraction(int(c.p), int(c.q)) ** sgn
        for f, k in fs:
            out.append((n.to_term(from_poly(sp.Poly(f, *gens, domain='QQ'), back)), sgn * k))
    return n, coef, out


def rational_sign(e, t, limit=600):
    """sign of a quotient of polynomials from the signs of its factors:
    1, -1, or None"""
    key = ('rsign', t.id, len(e.pc), tuple(c.id for c in e.pc[-3:]))
    if key in e.cache:
        return e.cache[key]
    r = None
    try:
        f = _factor(e, t, limit)
        if isinstance(f, tuple):
            r = 1 if f[1] > 0 else -1
            odd = [ft for ft, k in f[2] if k % 2]
            if len(odd) > 1 and all(positive(e, ft) is None for ft in odd):
                # the sign of a product may be known when those of its factors are not
                n = path_norm(e)
                x = positive(e, n.to_term(n.nf(T.mul(*odd))))
                if x is not None:
                    r = r if x else -r
                    f = f[:2] + ([(ft, k) for ft, k in f[2] if k % 2 == 0],)
            for ft, k in f[2]:
                if k % 2 == 0 and k > 0:
                    x = True if positive(e, T.ipow(ft, 2)) else None
                elif k % 2 == 0:
                    x = True    # a divisor
                else:
                    x = positive(e, ft)
                if x is None:
                    r = None
                    break
                if not x and k % 2:
                    r = -r
    except (TooBig, ZeroDivisionError, RecursionError):
        r = None
    e.cache[key] = r
    return r


def _simp(e, t):
    f = _factor(e, t)
    if f is None:
        return None
    if not isinstance(f, tuple):
        return T.ZERO if f is T.ZERO else T.sqrt(f)
    n, coef, fs = f
    out = [T.ONE]
    inner = [T.ONE]
    for ft, k in fs:
        sgn = 1 if k > 0 else -1
        k = abs(k)
        if k >= 2:
            nn = nonneg(e, ft)
            if nn is None:
                inner.append(T.ipow(ft, sgn * k))
                continue
            out.append(T.ipow(ft if nn else T.neg(ft), sgn * (k // 2)))
        if k % 2:
            # 1/sqrt(f): keep inside as 1/f
            inner.append(ft if sgn == 1 else T.ipow(ft, -1))
    if all(x.op == 'ipow' and x.args[1] == -1 for x in inner[1:]) and len(inner) > 1:
        # root of a constant over a polynomial
        g = T.mul(T.const(1 / coef), *[x.args[0] for x in inner[1:]])
        return T.mul(*(out + [T.ipow(simp_sqrt(e, g), -1)]))
    r = T._exact_root(abs(coef))
    if r is not None and coef > 0:
        out.append(T.const(r))
    elif r is not None:
        out.append(T.const(r))
        inner.insert(0, T.MONE)
    else:
        inner.insert(0, T.const(coef))
    # expand a small polynomial so that equal radicands coincide
    it = T.mul(*inner)
    if it is T.ONE:
        return T.mul(*out)
    q = n.nf(it)
    it = n.to_term(q)
    return T.mul(*(out + [T.sqrt(it)]))
