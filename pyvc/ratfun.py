"""Equality of rational expressions in the field of fractions of a polynomial
ring (sympy's field of fractions does the arithmetic).

Variables and applications are generators; sqrt(a) satisfies r^2 = a.  Every
inverse in a term was created on a path where its argument is not zero, so an
identity of fractions is an equality of values."""
import sys
from . import terms as T

sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')


class NoForm(Exception):
    pass


def collect(ts):
    seen, atoms, order = set(), {}, []
    def walk(t):
        if t.id in seen:
            return
        seen.add(t.id)
        if t.op == 'const':
            return
        if t.op in ('add', 'mul'):
            for a in t.args:
                walk(a)
        elif t.op == 'ipow':
            walk(t.args[0])
        elif t.op == 'fn' and t.args[0] == 'sqrt':
            walk(t.args[1])         # its argument comes first
            atoms[t.id] = len(order)
            order.append(t)
        elif t.op in ('var', 'bv', 'fn', 'ite', 'sum'):
            atoms[t.id] = len(order)
            order.append(t)
        else:
            raise NoForm(t.op)
    for t in ts:
        walk(t)
    return atoms, order


def equal(a, b, rules=()):
    """is a == b an identity (given polynomial rules atom := term)?"""
    from sympy.polys.fields import field
    from sympy import QQ
    atoms, order = collect([a, b])
    n = len(order)
    if n == 0 or n > 24:
        return False
    # lexicographic order with the roots (last) largest
    names = ['x%d' % i for i in range(n)]
    F = field(names, QQ)
    gens = F[1:]
    F = F[0]
    memo = {}
    rel = {}

    def tr(t):
        r = memo.get(t.id)
        if r is not None:
            return r
        if t.op == 'const':
            c = t.args[0]
            r = F(QQ(c.numerator, c.denominator))
        elif t.op == 'add':
            r = F(0)
            for x in t.args:
                r = r + tr(x)
        elif t.op == 'mul':
            r = F(1)
            for x in t.args:
                r = r * tr(x)
        elif t.op == 'ipow':
            r = reduce_(tr(t.args[0])) ** t.args[1]
        else:
            i = atoms[t.id]
            r = gens[i]
            if t.op == 'fn' and t.args[0] == 'sqrt':
                rel[i] = reduce_(tr(t.args[1]))
        r = reduce_(r) if rel else r
        memo[t.id] = r
        return r

    def redpoly(p, i, arg):
        """p modulo x_i^2 - arg, as a fraction"""
        if not any(m[i] > 1 for m in p.itermonoms()):
            return F(p)
        R = p.ring
        parts = {}
        for m, c in p.terms():
            k = m[i]
            mm = tuple(v if j != i else k % 2 for j, v in enumerate(m))
            d = parts.setdefault(k // 2, {})
            d[mm] = d.get(mm, 0) + c
        out = F(0)
        for k, d in parts.items():
            out = out + F(R.from_dict(d)) * arg ** k
        return out

    def reduce_(x):
        for _ in range(4):
            again = False
            for i in sorted(rel, reverse=True):
                if any(m[i] > 1 for m in x.numer.itermonoms()) or any(m[i] > 1 for m in x.denom.itermonoms()):
                    x = redpoly(x.numer, i, rel[i]) / redpoly(x.denom, i, rel[i])
                    again = True
            if not again:
                break
        return x
    d = reduce_(tr(a) - tr(b))
    return not d.numer
