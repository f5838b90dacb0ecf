"""Substitutions implied by the equalities of a path condition."""
from . import terms as T
from fractions import Fraction


def _zeros(t, sign, out, depth=0):
    """terms known to vanish because t == 0"""
    if depth > 6:
        return
    if t.op == 'fn' and t.args[0] in ('sqrt', 'abs', 'arctanh', 'tanh', 'sinh'):
        _zeros(t.args[1], sign, out, depth + 1)
        return
    if t.op == 'ipow' and t.args[1] > 0:
        _zeros(t.args[0], sign, out, depth + 1)
        return
    if t.op == 'mul':
        fs = []
        for x in t.args:
            if x.op == 'const':
                continue
            if x.op == 'ipow' and x.args[1] < 0:
                continue
            if '0' not in sign(x):
                continue
            if x.id not in [y.id for y in fs]:
                fs.append(x)
        if len(fs) == 1:
            _zeros(fs[0], sign, out, depth + 1)
            return
    if t.op == 'add':
        ss = [sign(x) for x in t.args]
        if all('-' not in s for s in ss) or all('+' not in s for s in ss):
            for x in t.args:
                _zeros(x, sign, out, depth + 1)
            return
        ls = _sos(t)
        if ls is not None:
            out.extend(ls)
            return
    out.append(t)


def _sos(t):
    """t a quadratic form; when it is +-(sum of squares) of linear forms,
    the list of those forms (they vanish when t does), else None"""
    q = {}
    names = []
    for x in t.args:
        c = Fraction(1)
        vs = []
        for f in (x.args if x.op == 'mul' else (x,)):
            if f.op == 'const':
                c *= f.args[0]
            elif f.op == 'ipow' and f.args[1] == 2:
                vs += [f.args[0]] * 2
            else:
                vs.append(f)
        if len(vs) != 2 or any(v.op not in ('var', 'fn') for v in vs):
            return None
        for v in vs:
            if v not in names:
                names.append(v)
        i, j = names.index(vs[0]), names.index(vs[1])
        if i == j:
            q[i, i] = q.get((i, i), 0) + c
        else:
            q[i, j] = q.get((i, j), 0) + c / 2
            q[j, i] = q.get((j, i), 0) + c / 2
    n = len(names)
    if n > 8:
        return None
    for sg in (1, -1):
        m = [[sg * q.get((i, j), Fraction(0)) for j in range(n)] for i in range(n)]
        forms = []
        ok = True
        for k in range(n):
            d = m[k][k]
            if d < 0:
                ok = False
            elif d == 0:
                ok = all(m[k][j] == 0 for j in range(n))
            else:
                row = [m[k][j] / d for j in range(n)]
                forms.append(T.add(*[T.mul(T.const(row[j]), names[j]) for j in range(n) if row[j] != 0]))
                for i in range(n):
                    for j in range(n):
                        m[i][j] -= d * row[i] * row[j] if i != k and j != k else 0
                for j in range(n):
                    m[k][j] = m[j][k] = Fraction(0)
            if not ok:
                break
        if ok:
            return forms
    return None


def _linear(t):
    """t = sum of c*term; -> list of (coef, term or None)"""
    out = []
    for x in (t.args if t.op == 'add' else (t,)):
        if x.op == 'const':
            out.append((x.args[0], None))
        elif x.op == 'mul' and x.args[0].op == 'const':
            rest = x.args[1:]
            out.append((x.args[0].args[0], rest[0] if len(rest) == 1 else T.mul(*rest)))
        else:
            out.append((Fraction(1), x))
    # like terms together: a substitution solves for one of them
    tot = {}
    for c, x in out:
        k = None if x is None else x.id
        tot[k] = (tot[k][0] + c if k in tot else c, x)
    return [(c, x) for c, x in tot.values() if c != 0]


def substitution(pc, sign):
    """{var: term} consequences of the equalities in pc, or {}"""
    m = {}
    work = []
    for c in pc:
        if c.op == 'eq':
            d = T.sub(c.args[0], c.args[1])
            _zeros(d, sign, work)
    for t in work:
        t = T.subst(t, m) if m else t
        lin = _linear(t)
        for c, x in lin:
            if x is None or x.op != 'var' or x in m:
                continue
            if x.sort == 'I' and abs(c) != 1:
                continue
            rest = [T.mul(T.const(-k / c), y) if y is not None else T.const(-k / c)
                    for k, y in lin if y is not x]
            r = T.add(*rest) if rest else T.ZERO
            if x in r.fv:
                continue
            if x.sort == 'I' and r.sort != 'I' and r.op != 'const':
                continue
            m = {k: T.subst(v, {x: r}) for k, v in m.items()}
            m[x] = r
            break
    return m
