"""Ring normaliser: decides equality of terms in the theory of fields with
finite sums, square roots, exponentials and indicator functions.

A term becomes a Laurent polynomial over *atoms*; an atom is a variable, an
array element, a function application, the inverse of a multi-term
polynomial, a finite sum of a monomial, or the indicator of a condition.

Coefficients are exact rationals.  Because the code under verification folds
floating point constants (e.g. 1/(2*pi)), two coefficients are identified when
they agree to 1e-11 relative (stated as an assumption in the evidence).
"""
from fractions import Fraction
import math
from . import terms as T

LIMIT = 6000
RTOL = Fraction(1, 10 ** 11)
ATOL = Fraction(1, 10 ** 14)


class TooBig(Exception):
    pass


class Atom(object):
    __slots__ = ('id', 'kind', 'data', 'fv', 'depth')


def approx_eq(a, b):
    return a == b or abs(a - b) <= RTOL * max(abs(a), abs(b))


class Normalizer(object):
    def __init__(self, facts=()):
        """facts: boolean terms known to be true (path condition)"""
        self.atoms = []
        self.keys = {}
        self.memo = {}
        self.by_kind = {}
        self.known = {}
        self.facts = facts
        self.eqsub = {}
        self._assume(facts)

    # ------------------------------------------------------------ facts
    def _assume(self, facts):
        # equalities var == const / var == term are used as rewrite rules
        for f in facts:
            if f.op == 'eq':
                a, b = f.args
                for x, y in ((a, b), (b, a)):
                    if x.op in ('var', 'fn') and y.op == 'const' and x not in self.eqsub:
                        self.eqsub[x] = y
                        break
        for f in facts:
            self._known_fact(f, True)

    def _known_fact(self, f, val):
        if f.op == 'and' and val:
            for g in f.args:
                self._known_fact(g, True)
            return
        if f.op == 'or' and not val:
            for g in f.args:
                self._known_fact(g, False)
            return
        if f.op == 'not':
            self._known_fact(f.args[0], not val)
            return
        if f.op in ('lt', 'le', 'eq', 'bfn'):
            try:
                k = self._cond_key(f)
            except (TooBig, ZeroDivisionError):
                return
            if k is None or isinstance(k, bool):
                return
            key, sign = k
            self.known[key] = (val == sign)
            if f.op == 'lt' and val:
                # a<b  implies not b<a
                k2 = self._cond_key(T.lt(f.args[1], f.args[0]))
                if isinstance(k2, tuple):
                    self.known[k2[0]] = (not k2[1])
                k2 = self._cond_key(T.eq(f.args[1], f.args[0]))
                if isinstance(k2, tuple):
                    self.known[k2[0]] = (not k2[1])
            elif f.op == 'le' and not val:
                k2 = self._cond_key(T.lt(f.args[0], f.args[1]))
                if isinstance(k2, tuple):
                    self.known[k2[0]] = (not k2[1])

    # ------------------------------------------------------------ atoms
    def _atom(self, key, kind, data, fv, depth):
        i = self.keys.get(key)
        if i is None:
            a = Atom()
            a.kind = kind
            a.data = data
            a.fv = fv
            a.depth = depth
            i = len(self.atoms)
            a.id = i
            self.atoms.append(a)
            self.keys[key] = i
            self.by_kind.setdefault(kind if kind != 'fn' else ('fn', data[0]), []).append(i)
        return i

    def pkey(self, p):
        return tuple(sorted(p.items()))

    def pfv(self, p):
        fv = frozenset()
        for m in p:
            for a, e in m:
                x = self.atoms[a].fv
                if x:
                    fv = fv | x
        return fv

    def pdepth(self, p):
        d = 0
        for m in p:
            for a, e in m:
                if self.atoms[a].depth > d:
                    d = self.atoms[a].depth
        return d

    # ------------------------------------------------------- polynomials
    def pconst(self, c):
        return {(): Fraction(c)} if c != 0 else {}

    def padd(self, p, q):
        if len(p) < len(q):
            p, q = q, p
        r = dict(p)
        for m, c in q.items():
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
        return r

    def pscale(self, p, c):
        if c == 0:
            return {}
        return {m: v * c for m, v in p.items()}

    def psub(self, p, q):
        return self.padd(p, self.pscale(q, -1))

    def pmul(self, p, q):
        if not p or not q:
            return {}
        if len(p) * len(q) > 60000:
            raise TooBig()
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                self._macc(r, m1, m2, c1 * c2)
        if len(r) > LIMIT:
            raise TooBig()
        return r

    def _macc(self, r, m1, m2, c):
        if not m1:
            m, plain = m2, True
        elif not m2:
            m, plain = m1, True
        else:
            d = dict(m1)
            plain = True
            nexp = 0
            for a, e in m2:
                x = d.get(a, 0) + e
                if x == 0:
                    del d[a]
                else:
                    d[a] = x
            for a, e in d.items():
                k = self.atoms[a]
                if k.kind == 'fn':
                    nm = k.data[0]
                    if nm == 'sqrt' and (e < 0 or e > 1):
                        plain = False
                    elif nm == 'exp':
                        nexp += 1
                        if e != 1:
                            plain = False
                elif k.kind == 'I' and e != 1:
                    plain = False
                elif k.kind == 'P' and e > 0:
                    plain = False
            if nexp > 1:
                plain = False
            m = tuple(sorted(d.items()))
        if plain:
            v = r.get(m, 0) + c
            if v == 0:
                r.pop(m, None)
            else:
                r[m] = v
            return
        # special reductions
        rest = []
        factor = {(): Fraction(1)}
        exparg = {}
        for a, e in m:
            k = self.atoms[a]
            if k.kind == 'fn' and k.data[0] == 'sqrt' and (e < 0 or e > 1):
                if e % 2:
                    rest.append((a, 1))
                    e -= 1
                factor = self.pmul(factor, self.ppow(k.data[1], e // 2))
            elif k.kind == 'fn' and k.data[0] == 'exp':
                exparg = self.padd(exparg, self.pscale(k.data[1], e))
            elif k.kind == 'I':
                if e > 0:
                    rest.append((a, 1))
                else:
                    rest.append((a, e))
            elif k.kind == 'P' and e > 0:
                factor = self.pmul(factor, self.ppow(k.data, e))
            else:
                rest.append((a, e))
        if exparg:
            factor = self.pmul(factor, self.fnpoly('exp', [exparg]))
        rest = tuple(sorted(rest))
        for m3, c3 in factor.items():
            self._macc(r, rest, m3, c * c3)

    def ppow(self, p, n):
        if n < 0:
            return self._pow_neg(p, -n)
        r = {(): Fraction(1)}
        b = p
        while n:
            if n & 1:
                r = self.pmul(r, b)
            n >>= 1
            if n:
                b = self.pmul(b, b)
        return r

    def _pow_neg(self, p, n):
        q = self.pinv(p)
        return self.ppow(q, n)

    def pinv(self, p):
        if not p:
            raise ZeroDivisionError('inverse of zero polynomial')
        if len(p) == 1:
            (m, c), = p.items()
            r = {}
            self._macc(r, (), tuple((a, -e) for a, e in m), 1 / c) if self._simple(m) else None
            if self._simple(m):
                return r
            # reduce via repeated multiplication
            out = {(): 1 / c}
            for a, e in m:
                k = self.atoms[a]
                if k.kind == 'fn' and k.data[0] == 'sqrt':
                    # 1/s = s/A
                    out = self.pmul(out, self.pmul({((a, 1),): Fraction(1)}, self.pinv(k.data[1])))
                elif k.kind == 'fn' and k.data[0] == 'exp':
                    out = self.pmul(out, self.fnpoly('exp', [self.pscale(k.data[1], -e)]))
                elif k.kind == 'P':
                    out = self.pmul(out, self.ppow(k.data, -e))
                else:
                    out = self.pmul(out, {((a, -e),): Fraction(1)})
            return out
        # clear inner denominators: p = N / D
        n, d = self.clear(p)
        if d is not None:
            return self.pmul(d, self.pinv(n))
        # content: make the leading coefficient 1
        m0 = max(p)
        c0 = p[m0]
        # factor out common monomial (Laurent gcd)
        g = self._mono_gcd(p)
        q = {}
        for m, c in p.items():
            d2 = dict(m)
            for a, e in g:
                x = d2.get(a, 0) - e
                if x == 0:
                    d2.pop(a, None)
                else:
                    d2[a] = x
            q[tuple(sorted(d2.items()))] = c
        m0 = max(q)
        c0 = q[m0]
        q = {m: c / c0 for m, c in q.items()}
        a = self._patom(q)
        r = {((a, -1),): 1 / c0}
        if g:
            r = self.pmul(r, self.pinv({g: Fraction(1)}))
        return r

    def _simple(self, m):
        for a, e in m:
            k = self.atoms[a]
            if k.kind in ('P', 'I'):
                return False
            if k.kind == 'fn' and k.data[0] in ('sqrt', 'exp'):
                return False
        return True

    def _mono_gcd(self, p):
        it = iter(p)
        g = dict(next(it))
        for m in it:
            d = dict(m)
            for a in list(g):
                e = d.get(a, 0)
                if (e > 0) != (g[a] > 0) or e == 0:
                    # mixed signs: use min for negatives
                    if e < 0 or g[a] < 0:
                        g[a] = min(e, g[a])
                    else:
                        del g[a]
                else:
                    g[a] = min(e, g[a])
            for a, e in d.items():
                if e < 0 and a not in g:
                    g[a] = e
        out = []
        for a, e in g.items():
            k = self.atoms[a]
            if k.kind in ('I',) or (k.kind == 'fn' and k.data[0] in ('sqrt', 'exp')):
                continue
            if e != 0:
                out.append((a, e))
        # every monomial must really contain it
        ok = []
        for a, e in out:
            if all(dict(m).get(a, 0) >= e for m in p):
                ok.append((a, e))
        return tuple(sorted(ok))

    def _patom(self, q):
        key = ('P', self.pkey(q))
        if key in self.keys:
            return self.keys[key]
        for i in self.by_kind.get('P', ()):
            if self._same_poly(self.atoms[i].data, q):
                self.keys[key] = i
                return i
        return self._atom(key, 'P', q, self.pfv(q), self.pdepth(q))

    def _same_poly(self, p, q):
        if len(p) != len(q):
            return False
        for m, c in p.items():
            d = q.get(m)
            if d is None or not approx_eq(c, d):
                return False
        return True

    def clear(self, p):
        """p = N/D with N, D free of inverse-polynomial atoms; (p, None) if none"""
        ex = {}
        for m in p:
            for a, e in m:
                if self.atoms[a].kind == 'P' and e < 0:
                    ex[a] = max(ex.get(a, 0), -e)
        if not ex:
            return p, None
        return self._clear_with(p, ex), self._den(ex)

    def _den(self, ex):
        d = {(): Fraction(1)}
        for a, e in ex.items():
            d = self.pmul(d, self.ppow(self.atoms[a].data, e))
        return d

    def _clear_with(self, p, ex):
        n = {}
        groups = {}
        for m, c in p.items():
            rest = []
            left = dict(ex)
            for a, e in m:
                if a in left and e < 0:
                    left[a] += e
                else:
                    rest.append((a, e))
            groups.setdefault(tuple(sorted(left.items())), {})[tuple(rest)] = c
        for left, g in groups.items():
            f = g
            for a, e in left:
                if e:
                    f = self.pmul(f, self.ppow(self.atoms[a].data, e))
            n = self.padd(n, f)
            if len(n) > LIMIT:
                raise TooBig()
        return n

    # --------------------------------------------------------- functions
    def fnpoly(self, name, args):
        """polynomial for name(*args), args polynomials"""
        if name == 'sqrt':
            a = args[0]
            if not a:
                return {}
            if len(a) == 1:
                (m, c), = a.items()
                if not m:
                    r = T._exact_root(c) if c > 0 else None
                    if r is not None:
                        return {(): r}
            # content
            m0 = max(a)
            c0 = abs(a[m0])
            r = T._exact_root(c0)
            if r is None:
                fr = Fraction(math.sqrt(c0)).limit_denominator(10 ** 30)
                r = Fraction(math.sqrt(float(c0)))
                # approximate root of a constant, correct to 1e-16
            a = {m: c / c0 for m, c in a.items()}
            # even powers of atoms known non-negative
            out = {(): r}
            if len(a) == 1:
                (m, c), = a.items()
                keep = []
                for at, e in m:
                    if e % 2 == 0 and self.nonneg_atom(at):
                        out = self.pmul(out, self.ppow({((at, 1),): Fraction(1)}, e // 2))
                    else:
                        keep.append((at, e))
                if not keep and c == 1:
                    return out
                a = {tuple(keep): c}
            else:
                # common factor of negative powers: sqrt(A/x^2) = sqrt(A)/x
                n, d = self.clear(a)
                if d is not None:
                    # sqrt(N/D): canonical atom on N*D with 1/D, only if D>0 is known
                    pass
            at = self._fnatom('sqrt', [a])
            return self.pmul(out, {((at, 1),): Fraction(1)})
        if name == 'exp':
            a = args[0]
            if not a:
                return {(): Fraction(1)}
            # exp(c*log(x) + r) with integer c
            for m, c in a.items():
                if len(m) == 1 and m[0][1] == 1 and c.denominator == 1:
                    k = self.atoms[m[0][0]]
                    if k.kind == 'fn' and k.data[0] == 'log':
                        rest = dict(a)
                        del rest[m]
                        return self.pmul(self.ppow(k.data[1], int(c)),
                                         self.fnpoly('exp', [rest]))
            at = self._fnatom('exp', args)
            return {((at, 1),): Fraction(1)}
        if name == 'log':
            a = args[0]
            if len(a) == 1:
                (m, c), = a.items()
                if not m and c == 1:
                    return {}
                if len(m) == 1 and m[0][1] == 1:
                    k = self.atoms[m[0][0]]
                    if k.kind == 'fn' and k.data[0] == 'exp':
                        r = dict(k.data[1])
                        if c != 1:
                            r = self.padd(r, self.fnpoly('log', [{(): c}]))
                        return r
                if c > 0 and (len(m) > 1 or (len(m) == 1 and (m[0][1] != 1 or c != 1))) \
                        and all(self.pos_atom(x) for x, e in m):
                    out = {}
                    if c != 1:
                        out = self.fnpoly('log', [{(): c}])
                    for x, e in m:
                        out = self.padd(out, self.pscale(
                            self.fnpoly('log', [{((x, 1),): Fraction(1)}]), e))
                    return out
            at = self._fnatom('log', args)
            return {((at, 1),): Fraction(1)}
        if name in ('sin', 'cos') and len(args[0]):
            # cos is even, sin is odd
            m0 = max(args[0])
            if args[0][m0] < 0:
                p = self.fnpoly(name, [self.pscale(args[0], -1)])
                return self.pscale(p, -1) if name == 'sin' else p
            if name == 'cos':
                pass
        if len(args) == 1 and not args[0]:
            # values at zero
            if name in ('sin', 'tan', 'tanh', 'sinh', 'arctan', 'arcsin', 'arctanh', 'erf'):
                return {}
            if name in ('cos', 'cosh'):
                return {(): Fraction(1)}
        at = self._fnatom(name, args)
        return {((at, 1),): Fraction(1)}

    def nonneg_atom(self, at):
        k = self.atoms[at]
        if k.kind == 'fn' and k.data[0] in ('sqrt', 'exp'):
            return True
        if k.kind == 'I':
            return True
        p = {((at, 1),): Fraction(1)}
        key = ('gt0', self.pkey(p))
        if self.known.get(key) is True:
            return True
        key = ('gt0', self.pkey(self.pscale(p, -1)))
        return self.known.get(key) is False

    def pos_atom(self, at):
        k = self.atoms[at]
        if k.kind == 'fn' and k.data[0] == 'exp':
            return True
        if k.kind == 'fn' and k.data[0] == 'sqrt':
            return self.known.get(('gt0', self.pkey(k.data[1]))) is True
        p = {((at, 1),): Fraction(1)}
        if self.known.get(('gt0', self.pkey(p))) is True:
            return True
        return False

    def _fnatom(self, name, args):
        key = ('fn', name, tuple(self.pkey(a) for a in args))
        if key in self.keys:
            return self.keys[key]
        for i in self.by_kind.get(('fn', name), ()):
            d = self.atoms[i].data
            if len(d) - 1 == len(args) and all(
                    self.equal_poly(x, y) for x, y in zip(d[1:], args)):
                self.keys[key] = i
                return i
        fv = frozenset()
        dep = 0
        for a in args:
            fv = fv | self.pfv(a)
            dep = max(dep, self.pdepth(a))
        return self._atom(key, 'fn', (name,) + tuple(args), fv, dep)

    # -------------------------------------------------------- conditions
    def _cond_key(self, c):
        """canonical key: (key, positive?) or bool"""
        if c.op == 'bfn':
            args = tuple(self.pkey(self.nf(x)) for x in c.args[1:])
            return ('bfn', c.args[0], args), True
        a, b = self.nf(c.args[0]), self.nf(c.args[1])
        p = self._canon_sign(self._free(self.psub(b, a)))
        if c.op == 'lt':
            if not p:
                return False
            if len(p) == 1 and () in p:
                return p[()] > 0
            return ('gt0', self.pkey(p)), True
        if c.op == 'le':
            # a<=b  <=> not (a-b > 0)
            if not p:
                return True
            if len(p) == 1 and () in p:
                return p[()] >= 0
            return ('gt0', self.pkey(self.pscale(p, -1))), False
        if c.op == 'eq':
            if not p:
                return True
            if len(p) == 1 and () in p:
                return p[()] == 0
            m0 = max(p)
            if p[m0] < 0:
                p = self.pscale(p, -1)
            return ('eq0', self.pkey(p)), True
        return None

    def _free(self, p):
        """p without powers common to all its monomials that have no influence on its sign"""
        if len(p) < 2:
            return p
        low = None
        for m in p:
            d = dict(m)
            low = d if low is None else {a: min(k, d.get(a, 0)) for a, k in low.items()}
            for a, k in d.items():
                if a not in low and k < 0:
                    low[a] = k
        ex = {}
        for a, k in low.items():
            if not k or self.atoms[a].kind == 'P':
                continue
            pos = k % 2 or k > 0
            if pos and self.known.get(('gt0', ((((a, 1),), Fraction(1)),))) is not True:
                k = k - k % 2 if k < 0 else 0
            if k:
                ex[a] = -k
        if not ex:
            return p
        r = {}
        for m, c in p.items():
            d = dict(m)
            for a, k in ex.items():
                d[a] = d.get(a, 0) + k
                if not d[a]:
                    del d[a]
            r[tuple(sorted(d.items()))] = c
        return r

    def _canon_sign(self, p):
        if not p:
            return p
        m0 = max(p)
        c = abs(p[m0])
        return {m: v / c for m, v in p.items()}

    def indicator(self, c):
        """polynomial of the indicator function of condition c"""
        op = c.op
        if op == 'true':
            return {(): Fraction(1)}
        if op == 'false':
            return {}
        if op == 'not':
            return self.psub({(): Fraction(1)}, self.indicator(c.args[0]))
        if op == 'and':
            r = {(): Fraction(1)}
            for x in c.args:
                r = self.pmul(r, self.indicator(x))
            return r
        if op == 'or':
            r = {(): Fraction(1)}
            for x in c.args:
                r = self.pmul(r, self.psub({(): Fraction(1)}, self.indicator(x)))
            return self.psub({(): Fraction(1)}, r)
        k = self._cond_key(c) if op in ('lt', 'le', 'eq', 'bfn') else None
        if k is None:
            key, sign = ('term', c.id), True
        elif isinstance(k, bool):
            return {(): Fraction(1)} if k else {}
        else:
            key, sign = k
        if key in self.known:
            v = self.known[key]
            return {(): Fraction(1)} if v == sign else {}
        # approximate match with an existing condition
        a = self.keys.get(('I', key))
        if a is None and key[0] in ('gt0', 'eq0'):
            p = dict(key[1])
            for i in self.by_kind.get('I', ()):
                k2 = self.atoms[i].data[0]
                if k2[0] == key[0] and self._same_poly(dict(k2[1]), p):
                    a = i
                    break
        if a is None:
            a = self._atom(('I', key), 'I', (key, c), c.fv, c.depth)
        p = {((a, 1),): Fraction(1)}
        return p if sign else self.psub({(): Fraction(1)}, p)

    # ------------------------------------------------------- normal form
    def nf(self, t):
        r = self.memo.get(t.id)
        if r is not None:
            return r
        r = self._nf(t)
        if len(r) > LIMIT:
            raise TooBig()
        self.memo[t.id] = r
        return r

    def _nf(self, t):
        op = t.op
        a = t.args
        if t in self.eqsub:
            return self.nf(self.eqsub[t])
        if op == 'const':
            return self.pconst(a[0])
        if op in ('var', 'bv'):
            i = self._atom(('v', t.id), 'v', t, frozenset((t,)), 0)
            return {((i, 1),): Fraction(1)}
        if op == 'add':
            r = {}
            for x in a:
                r = self.padd(r, self.nf(x))
            return r
        if op == 'mul':
            r = {(): Fraction(1)}
            for x in sorted(a, key=lambda x: 0 if x.op == 'const' else 1):
                r = self.pmul(r, self.nf(x))
            return r
        if op == 'ipow':
            return self.ppow(self.nf(a[0]), a[1])
        if op == 'fn':
            return self.fnpoly(a[0], [self.nf(x) for x in a[1:]])
        if op == 'ite':
            c = self.indicator(a[0])
            if c == {(): Fraction(1)}:
                return self.nf(a[1])
            if not c:
                return self.nf(a[2])
            x, y = self.nf(a[1]), self.nf(a[2])
            return self.padd(self.pmul(c, self.psub(x, y)), y)
        if op == 'sum':
            return self._nfsum(t)
        raise TooBig('no normal form for ' + op)

    def _nfsum(self, t):
        lo, hi, body, d = t.args
        if lo.op == 'const' and hi.op == 'const' and hi.args[0] - lo.args[0] <= 40:
            r = {}
            for k in range(int(lo.args[0]), int(hi.args[0])):
                r = self.padd(r, self.nf(T.subst(body, {T.bv(d): T.const(k)})))
            return r
        b = T.bv(d)
        plo, phi = self.nf(lo), self.nf(hi)
        p = self.nf(body)
        r = {}
        for m, c in p.items():
            dep, ind = [], []
            for at, e in m:
                if b in self.atoms[at].fv:
                    dep.append((at, e))
                else:
                    ind.append((at, e))
            dep = tuple(dep)
            if dep:
                mp = {dep: Fraction(1)}
                dd = self.pdepth(mp)
                if dd + 1 != d:
                    tt = T.subst(self.to_term(mp), {b: T.bv(dd + 1)})
                    mp = self.nf(tt)
                nd = dd + 1
            else:
                mp = {(): Fraction(1)}
                nd = 1
            if not dep:
                # sum of 1 = hi - lo when the range is known non-empty
                df = self.psub(phi, plo)
                if self._nonneg_range(df):
                    r = self.padd(r, self.pmul({tuple(ind): c}, df))
                    continue
            key = ('S', self.pkey(plo), self.pkey(phi), self.pkey(mp), nd)
            at = self.keys.get(key)
            if at is None:
                fv = self.pfv(mp) - {T.bv(nd)}
                fv = fv | self.pfv(plo) | self.pfv(phi)
                at = self._atom(key, 'S', (plo, phi, mp, nd), fv,
                                max(nd, self.pdepth(plo), self.pdepth(phi)))
            r2 = {}
            self._macc(r2, tuple(ind), ((at, 1),), c)
            r = self.padd(r, r2)
        return r

    def _nonneg_range(self, p):
        if not p:
            return True
        if len(p) == 1:
            (m, c), = p.items()
            if not m:
                return c >= 0
            if c > 0 and len(m) == 1 and m[0][1] == 1:
                k = self.atoms[m[0][0]]
                if k.kind == 'v' and k.data.op == 'bv':
                    return True
                return self.nonneg_atom(m[0][0])
        q = self._canon_sign(p)
        if self.known.get(('gt0', self.pkey(q))) is True:
            return True
        if self.known.get(('gt0', self.pkey(self.pscale(q, -1)))) is False:
            return True
        # sums of non-negative integer variables, minus lo index bound vars
        return all(c > 0 and all(self.nonneg_atom(x) for x, e in m) for m, c in p.items())

    # --------------------------------------------------------- to terms
    def atom_term(self, i):
        k = self.atoms[i]
        if k.kind == 'v':
            return k.data
        if k.kind == 'fn':
            return T.fn(k.data[0], *[self.to_term(p) for p in k.data[1:]])
        if k.kind == 'P':
            return self.to_term(k.data)
        if k.kind == 'I':
            return T.ite(k.data[1], T.ONE, T.ZERO)
        if k.kind == 'S':
            plo, phi, mp, nd = k.data
            return T._mk('sum', (self.to_term(plo), self.to_term(phi),
                                 self.to_term(mp), nd), 'R')
        raise AssertionError(k.kind)

    def to_term(self, p):
        out = []
        for m, c in sorted(p.items()):
            fs = [T.const(c)]
            for a, e in m:
                fs.append(T.ipow(self.atom_term(a), e))
            out.append(T.mul(*fs))
        return T.add(*out) if out else T.ZERO

    # ---------------------------------------------------------- equality
    def equal_poly(self, p, q):
        if p == q:
            return True
        ex = {}
        for r in (p, q):
            for m in r:
                for a, e in m:
                    if self.atoms[a].kind == 'P' and e < 0:
                        ex[a] = max(ex.get(a, 0), -e)
        if ex:
            p = self._clear_with(p, ex)
            q = self._clear_with(q, ex)
            if p == q:
                return True
        scale = Fraction(0)
        for r in (p, q):
            for c in r.values():
                if abs(c) > scale:
                    scale = abs(c)
        for m in set(p) | set(q):
            a, b = p.get(m, 0), q.get(m, 0)
            if a == b:
                continue
            if approx_eq(a, b):
                continue
            if abs(a - b) <= ATOL * min(scale, 1):
                continue
            return False
        return True

    def equal(self, a, b):
        if a is b:
            return True
        return self.equal_poly(self.nf(a), self.nf(b))
