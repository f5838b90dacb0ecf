"""Shape algebra: e, g and eta representations, shear and rotation."""
from pyvc.unit import unit


def shapes():
    import ngmix.shape as s
    return s


def disk(vc, a, b, allow=True):
    """two components of a vector, |.|^2 returned"""
    x = vc.real(a, gen=lambda r: r.uniform(-0.7, 0.7) if r.random() < 0.95 else 0.0)
    y = vc.real(b, gen=lambda r: r.uniform(-0.7, 0.7) if r.random() < 0.95 else 0.0)
    return x, y


def arr(vc, *xs):
    return vc.np.array(list(xs), dtype='f8')


def inside(vc, kind, x, y):
    vc.assume(x * x + y * y < 1)


@unit('C01')
def g_to_e(vc):
    """e = 2 g / (1+|g|^2), inside the unit disk, for every |g| < 1"""
    S = shapes()
    g1, g2 = disk(vc, 'g1', 'g2')
    gsq = g1 * g1 + g2 * g2
    vc.assume(gsq < 1)
    e1, e2 = S.g1g2_to_e1e2(g1, g2)
    vc.eq('e1 == 2 g1/(1+g^2)', e1 * (1 + gsq), 2 * g1)
    vc.eq('e2 == 2 g2/(1+g^2)', e2 * (1 + gsq), 2 * g2)
    vc.lt('|e| < 1', e1 * e1 + e2 * e2, 1)
    h1, h2 = S.e1e2_to_g1g2(e1, e2)
    vc.eq('e->g inverts g->e (1)', h1, g1)
    vc.eq('e->g inverts g->e (2)', h2, g2)
    vc.cover('end')


@unit('C01')
def e_to_g(vc):
    S = shapes()
    e1, e2 = disk(vc, 'e1', 'e2')
    esq = e1 * e1 + e2 * e2
    vc.assume(esq < 1)
    g1, g2 = S.e1e2_to_g1g2(e1, e2)
    vc.eq('g1 (1+g^2) -> e1', e1 * (1 + g1 * g1 + g2 * g2), 2 * g1)
    r = vc.fn('sqrt', 1 - esq)
    vc.eq('g1 (1+sqrt(1-e^2)) == e1', g1 * (1 + r), e1)
    vc.eq('g2 (1+sqrt(1-e^2)) == e2', g2 * (1 + r), e2)
    vc.lt('|g| < 1', g1 * g1 + g2 * g2, 1)
    d1, d2 = S.g1g2_to_e1e2(g1, g2)
    vc.eq('g->e inverts e->g (1)', d1, e1)
    vc.eq('g->e inverts e->g (2)', d2, e2)
    vc.cover('end')


@unit('C01')
def g_to_eta(vc):
    S = shapes()
    g1, g2 = disk(vc, 'g1', 'g2')
    gsq = g1 * g1 + g2 * g2
    vc.assume(gsq < 1)
    t1, t2 = S.g1g2_to_eta1eta2(g1, g2)
    # eta has modulus 2 artanh|g| and the direction of g
    vc.eq('direction', t1 * g2, t2 * g1)
    if vc.case(gsq > 0):
        m = 2 * vc.fn('arctanh', vc.fn('sqrt', gsq))
        vc.eq('modulus', t1 * t1 + t2 * t2, m * m)
        vc.le('same sense', 0, t1 * g1 + t2 * g2)
    else:
        vc.eq('zero', t1, 0.0)
        vc.eq('zero', t2, 0.0)
    h1, h2 = S.eta1eta2_to_g1g2(t1, t2)
    vc.eq('eta->g inverts g->eta (1)', h1, g1)
    vc.eq('eta->g inverts g->eta (2)', h2, g2)
    vc.cover('end')


@unit('C01')
def g_to_eta_to_e(vc):
    """eta and e views of the same g agree"""
    S = shapes()
    e1, e2 = disk(vc, 'e1', 'e2')
    esq = e1 * e1 + e2 * e2
    vc.assume(esq < 1)
    t1, t2 = S.e1e2_to_eta1eta2(e1, e2)
    vc.eq('direction', t1 * e2, t2 * e1)
    if vc.case(esq > 0):
        m = vc.fn('arctanh', vc.fn('sqrt', esq))
        vc.eq('modulus', t1 * t1 + t2 * t2, m * m)
        vc.le('same sense', 0, t1 * e1 + t2 * e2)
    else:
        vc.eq('zero', t1, 0.0)
        vc.eq('zero', t2, 0.0)
    h1, h2 = S.eta1eta2_to_g1g2(t1, t2)
    f1, f2 = S.e1e2_to_g1g2(e1, e2)
    vc.eq('e->eta->g == e->g (1)', h1, f1)
    vc.eq('e->eta->g == e->g (2)', h2, f2)
    vc.cover('end')


@unit('C01')
def eta_to_g(vc):
    S = shapes()
    t1, t2 = vc.real('t1'), vc.real('t2')
    tsq = t1 * t1 + t2 * t2
    # tanh saturates to one in double precision at about 18.7
    vc.assume(tsq < 1000)
    g1, g2 = S.eta1eta2_to_g1g2(t1, t2)
    vc.lt('|g| < 1', g1 * g1 + g2 * g2, 1)
    vc.eq('direction', t1 * g2, t2 * g1)
    vc.le('same sense', 0, t1 * g1 + t2 * g2)
    if vc.case(tsq > 0):
        m = vc.fn('tanh', 0.5 * vc.fn('sqrt', tsq))
        vc.eq('modulus', g1 * g1 + g2 * g2, m * m)
        b1, b2 = S.g1g2_to_eta1eta2(g1, g2)
        vc.eq('g->eta inverts eta->g (1)', b1, t1)
        vc.eq('g->eta inverts eta->g (2)', b2, t2)
    else:
        vc.eq('zero', g1, 0.0)
        vc.eq('zero', g2, 0.0)
    vc.cover('end')


@unit('C01')
def out_of_range(vc):
    """nothing outside the disk is converted"""
    S = shapes()
    a = vc.real('a', gen=lambda r: r.choice([1.0, -1.0, r.uniform(-1.5, 1.5), r.gauss(0, 3), 0.6]))
    b = vc.real('b', gen=lambda r: r.choice([0.0, 0.8, r.uniform(-1.5, 1.5), r.gauss(0, 3)]))
    rsq = a * a + b * b
    bad = vc.case(rsq >= 1)
    for nm in ('g1g2_to_e1e2', 'e1e2_to_g1g2', 'g1g2_to_eta1eta2', 'e1e2_to_eta1eta2', 'Shape'):
        r = vc.call(getattr(S, nm), a, b)
        if bad:
            vc.true(nm + ' refuses |x| >= 1', not r.ok and r.name == 'GMixRangeError')
        else:
            vc.true(nm + ' accepts |x| < 1', r.ok)
            if r.ok and nm != 'Shape':
                vc.true(nm + ': scalars for scalars', all(vc.np.ndim(t) == 0 for t in r.value))
    import ngmix.gmix.gmix_nb as nb
    r = vc.call(nb.g1g2_to_e1e2, a, b)
    if bad:
        vc.true('kernel conversion refuses |g| >= 1', not r.ok and r.name == 'GMixRangeError')
    else:
        vc.true('kernel conversion accepts |g| < 1', r.ok)
    vc.cover('end')


@unit('C01')
def kernel_g_to_e(vc):
    import ngmix.gmix.gmix_nb as nb
    g1, g2 = disk(vc, 'g1', 'g2')
    gsq = g1 * g1 + g2 * g2
    vc.assume(gsq < 1)
    e1, e2 = nb.g1g2_to_e1e2(g1, g2)
    vc.eq('e1 == 2 g1/(1+g^2)', e1 * (1 + gsq), 2 * g1)
    vc.eq('e2 == 2 g2/(1+g^2)', e2 * (1 + gsq), 2 * g2)
    vc.cover('end')


CONV = ['g1g2_to_e1e2', 'e1e2_to_g1g2', 'g1g2_to_eta1eta2', 'e1e2_to_eta1eta2', 'eta1eta2_to_g1g2']


@unit('C01', cases=CONV, bound='arrays of 2 elements')
def arrays(vc, fn):
    """array conversion is scalar conversion of each element, or one range error"""
    S = shapes()
    f = getattr(S, fn)
    gen = lambda r: r.choice([0.0, r.uniform(-0.7, 0.7), r.uniform(-0.7, 0.7), r.uniform(-1.2, 1.2)])
    xs = [(vc.real('x%d' % i, gen=gen), vc.real('y%d' % i, gen=gen)) for i in range(2)]
    for x, y in xs:
        # closer to the edge the result is clipped at one minus the machine epsilon
        vc.assume(vc.Or(x * x + y * y <= 1 - 1e-6, x * x + y * y >= 1))
    r = vc.call(f, arr(vc, *[x for x, y in xs]), arr(vc, *[y for x, y in xs]))
    one = [vc.call(f, x, y) for x, y in xs]
    if all(o.ok for o in one):
        vc.true('accepted', r.ok)
        if r.ok:
            for i, o in enumerate(one):
                vc.eq('first component', r.value[0][i], o.value[0], tol=1e-12)
                vc.eq('second component', r.value[1][i], o.value[1], tol=1e-12)
    else:
        vc.true('refused', not r.ok and r.name == 'GMixRangeError')
    vc.cover('end')


@unit('C01', cases=CONV, samples=40)
def arrays_any(vc, fn):
    """arrays of any length: an arbitrary element is converted as a scalar is, or there is one range error"""
    S = shapes()
    f = getattr(S, fn)
    n = vc.int('n', 1)
    gen = lambda r: r.choice([0.0, r.uniform(-0.7, 0.7), r.uniform(-0.7, 0.7), r.uniform(-0.7, 0.7), r.uniform(-0.75, 0.75)])
    a, b = vc.symarr('a', n, {None: dict(gen=gen)}), vc.symarr('b', n, {None: dict(gen=gen)})
    a0, b0 = a.copy(), b.copy()
    i = vc.at('i', n)
    x, y = a0[i], b0[i]
    # closer to the edge the result is clipped at one minus the machine epsilon
    vc.assume(vc.Or(x * x + y * y <= 1 - 1e-6, x * x + y * y >= 1))
    r = vc.call(f, a, b)

    def radius(k):
        return vc.fn('sqrt', a0[k] * a0[k] + b0[k] * b0[k])
    vc.counted(vc.sum(n, lambda k: vc.ite(radius(k) > 0, 1, 0)), n, radius(i) > 0, True)
    if fn in ('g1g2_to_e1e2', 'e1e2_to_g1g2', 'eta1eta2_to_g1g2'):
        vc.counted(vc.sum(n, lambda k: vc.ite(radius(k) != 0, 1, 0)), n, radius(i) != 0, True)
    if fn == 'eta1eta2_to_g1g2':
        out = False
    else:
        total = vc.sum(n, lambda k: vc.ite(radius(k) >= 1, 1, 0))
        out = vc.counted(total, n, radius(i) >= 1, True)
        some = vc.case(total > 0)
        vc.true('refused exactly when an element is outside', r.ok != some)
        if some:
            vc.true('range error', not r.ok and r.name == 'GMixRangeError')
    if r.ok:
        u = vc.call(f, x, y)
        vc.true('scalar accepted', u.ok and not out)
        if u.ok:
            vc.true('as many', vc.And(r.value[0].size == n, r.value[1].size == n))
            vc.eq('first', r.value[0][i], u.value[0], tol=1e-12)
            vc.eq('second', r.value[1][i], u.value[1], tol=1e-12)
    vc.eq('inputs unchanged', [a[i], b[i]], [a0[i], b0[i]], tol=0)
    vc.cover('end')


@unit('C01', cases=CONV[:4], prove=False, samples=40, bound='run-time only: arrays of up to 12 elements')
def arrays_many(vc, fn):
    S = shapes()
    f = getattr(S, fn)
    n = vc.int('n', 1, 12)
    a = vc.symarr('a', n, {None: dict(gen=lambda r: r.choice([0.0, r.uniform(-0.7, 0.7)]))})
    b = vc.symarr('b', n, {None: dict(gen=lambda r: r.choice([0.0, r.uniform(-0.7, 0.7)]))})
    x, y = f(a, b)
    for i in range(n):
        u, v = f(float(a[i]), float(b[i]))
        vc.eq('first', x[i], u, tol=1e-12)
        vc.eq('second', y[i], v, tol=1e-12)


# ------------------------------------------------------------------ C02

def cx(vc, g1, g2, s1, s2):
    """(g+s)/(1+conj(s) g) from its definition, numerator*conj(denominator), |denominator|^2"""
    nr, ni = g1 + s1, g2 + s2
    dr, di = 1 + g1 * s1 + g2 * s2, g2 * s1 - g1 * s2
    return nr, ni, dr, di


@unit('C02')
def shear_sum(vc):
    S = shapes()
    g1, g2 = disk(vc, 'g1', 'g2')
    s1, s2 = disk(vc, 's1', 's2')
    gsq, ssq = g1 * g1 + g2 * g2, s1 * s1 + s2 * s2
    vc.assume(gsq < 1)
    vc.assume(ssq < 1)
    h1, h2 = S.shear_reduced(g1, g2, s1, s2)
    nr, ni, dr, di = cx(vc, g1, g2, s1, s2)
    # h * (1 + conj(s) g) == g + s
    vc.eq('real part', h1 * dr - h2 * di, nr, scale=1)
    vc.eq('imaginary part', h1 * di + h2 * dr, ni, scale=1)
    vc.cover('end')


@unit('C02')
def shear_range(vc):
    S = shapes()
    g1, g2 = disk(vc, 'g1', 'g2')
    s1, s2 = disk(vc, 's1', 's2')
    gsq, ssq = g1 * g1 + g2 * g2, s1 * s1 + s2 * s2
    vc.assume(gsq < 1)
    vc.assume(ssq < 1)
    h1, h2 = S.shear_reduced(g1, g2, s1, s2)
    nr, ni, dr, di = cx(vc, g1, g2, s1, s2)
    D = dr * dr + di * di
    # (1-|h|^2) |1+conj(s) g|^2 = (1-|g|^2)(1-|s|^2) > 0
    vc.eq('1-|h|^2', (1 - h1 * h1 - h2 * h2) * D, (1 - gsq) * (1 - ssq), scale=1)
    # D = (1-|g|^2)(1-|s|^2) + |g+s|^2
    vc.eq('|1+conj(s) g|^2', D, (1 - gsq) * (1 - ssq) + nr * nr + ni * ni, scale=1)
    vc.have('product positive', (1 - gsq) * (1 - ssq) > 0)
    vc.have('denominator positive', (1 - gsq) * (1 - ssq) + nr * nr + ni * ni > 0)
    vc.eq('1-|h|^2 as a quotient', 1 - h1 * h1 - h2 * h2,
          (1 - gsq) * (1 - ssq) / ((1 - gsq) * (1 - ssq) + nr * nr + ni * ni), scale=1)
    vc.lt('|h| < 1', 0, (1 - gsq) * (1 - ssq) / ((1 - gsq) * (1 - ssq) + nr * nr + ni * ni))
    vc.cover('end')


@unit('C02')
def shear_inverse(vc):
    S = shapes()
    g1, g2 = disk(vc, 'g1', 'g2')
    s1, s2 = disk(vc, 's1', 's2')
    vc.assume(g1 * g1 + g2 * g2 < 0.98)
    vc.assume(s1 * s1 + s2 * s2 < 0.98)
    h1, h2 = S.shear_reduced(g1, g2, s1, s2)
    b1, b2 = S.shear_reduced(h1, h2, -s1, -s2)
    vc.eq('undone by -s (1)', b1, g1, scale=1)
    vc.eq('undone by -s (2)', b2, g2, scale=1)
    vc.cover('end')


@unit('C02')
def shear_identity(vc):
    S = shapes()
    g1, g2 = disk(vc, 'g1', 'g2')
    vc.assume(g1 * g1 + g2 * g2 < 1)
    h1, h2 = S.shear_reduced(g1, g2, 0.0, 0.0)
    vc.eq('zero shear (1)', h1, g1)
    vc.eq('zero shear (2)', h2, g2)
    h1, h2 = S.shear_reduced(0.0, 0.0, g1, g2)
    vc.eq('round (1)', h1, g1)
    vc.eq('round (2)', h2, g2)
    vc.cover('end')


@unit('C02', cases=['components', 'Shape'])
def shape_sheared(vc, how):
    """Shape.get_sheared is the same sum; the original is not touched"""
    S = shapes()
    g1, g2 = disk(vc, 'g1', 'g2')
    s1, s2 = disk(vc, 's1', 's2')
    vc.assume(g1 * g1 + g2 * g2 < 0.98)
    vc.assume(s1 * s1 + s2 * s2 < 0.98)
    a = S.Shape(g1, g2)
    r = vc.call(a.get_sheared, S.Shape(s1, s2)) if how == 'Shape' else vc.call(a.get_sheared, s1, s2)
    if r.ok:
        h = r.value
        nr, ni, dr, di = cx(vc, g1, g2, s1, s2)
        vc.eq('real part', h.g1 * dr - h.g2 * di, nr, scale=1)
        vc.eq('imaginary part', h.g1 * di + h.g2 * dr, ni, scale=1)
        vc.eq('modulus kept', h.g * h.g, h.g1 * h.g1 + h.g2 * h.g2)
    else:
        # cannot happen by shear_range; rounding aside
        vc.true('only range errors', r.name == 'GMixRangeError')
    vc.eq('original kept', a.g1, g1)
    vc.eq('original kept', a.g2, g2)
    vc.true('needs both components', vc.call(a.get_sheared, s1).name == 'ValueError' or how == 'Shape')
    n = -a
    vc.eq('negation', n.g1, -g1)
    vc.eq('negation', n.g2, -g2)
    c = a.copy()
    vc.eq('copy', c.g1, g1)
    vc.eq('copy', c.g2, g2)
    vc.true('copy is new', c is not a)
    vc.cover('end')


@unit('C02')
def shear_jacobian(vc):
    """|d(g sheared by -s... )/dg| from the exact derivative of the sum: for h = (g+s)/(1+conj(s)g),
    dh/dg = (1-|s|^2)/(1+conj(s)g)^2, so the real Jacobian is its squared modulus"""
    S = shapes()
    g1, g2 = disk(vc, 'g1', 'g2')
    s1, s2 = disk(vc, 's1', 's2')
    ssq = s1 * s1 + s2 * s2
    vc.assume(g1 * g1 + g2 * g2 < 0.98)
    vc.assume(ssq < 0.98)
    J = S.dgs_by_dgo_jacob(g1, g2, s1, s2)
    nr, ni, dr, di = cx(vc, g1, g2, s1, s2)
    D = dr * dr + di * di
    vc.eq('jacobian', J * D * D, (1 - ssq) * (1 - ssq))
    vc.cover('end')


@unit('C02', real=False)
def shear_jacobian_is_derivative(vc):
    """ghost: difference quotient of the real shear_reduced, exact in the increment"""
    S = shapes()
    g1, g2 = disk(vc, 'g1', 'g2')
    s1, s2 = disk(vc, 's1', 's2')
    d = vc.real('d', gen=lambda r: r.uniform(0.001, 0.01))
    ssq = s1 * s1 + s2 * s2
    vc.assume(g1 * g1 + g2 * g2 < 0.9)
    vc.assume(ssq < 0.9)
    vc.assume((g1 + d) * (g1 + d) + g2 * g2 < 1)
    vc.assume(d > 0)
    for x in (g1 + d, g1):
        # |1+conj(s)g|^2 = |g+s|^2 + (1-|g|^2)(1-|s|^2)
        nr, ni, dr, di = cx(vc, x, g2, s1, s2)
        w = (1 - x * x - g2 * g2) * (1 - ssq)
        vc.have('product', w > 0)
        vc.have('denominator', vc.And(dr * dr + di * di - nr * nr - ni * ni - w <= 1e-12, dr * dr + di * di > 0))
    # (h(g+d)-h(g)) (1+conj(s)(g+d)) (1+conj(s)g) = d (1-|s|^2), as complex numbers
    a1, a2 = S.shear_reduced(g1 + d, g2, s1, s2)
    b1, b2 = S.shear_reduced(g1, g2, s1, s2)
    _, _, pr, pi = cx(vc, g1 + d, g2, s1, s2)
    _, _, qr, qi = cx(vc, g1, g2, s1, s2)
    mr, mi = pr * qr - pi * qi, pr * qi + pi * qr
    xr, xi = a1 - b1, a2 - b2
    vc.eq('real', xr * mr - xi * mi, d * (1 - ssq))
    vc.eq('imaginary', xr * mi + xi * mr, 0.0)
    vc.cover('end')


@unit('C02')
def rotation(vc):
    S = shapes()
    g1, g2 = disk(vc, 'g1', 'g2')
    th = vc.real('theta')
    ph = vc.real('phi')
    vc.assume(g1 * g1 + g2 * g2 < 0.98)
    c, s = vc.np.cos(2 * th), vc.np.sin(2 * th)
    h1, h2 = S.rotate_shape(g1, g2, th)
    vc.eq('first', h1, c * g1 + s * g2, scale=1)
    vc.eq('second', h2, c * g2 - s * g1, scale=1)
    vc.eq('size kept', h1 * h1 + h2 * h2, g1 * g1 + g2 * g2, scale=1)
    k1, k2 = S.rotate_shape(h1, h2, -th)
    vc.eq('undone (1)', k1, g1, scale=1)
    vc.eq('undone (2)', k2, g2, scale=1)
    a = S.Shape(g1, g2)
    r = vc.call(a.get_rotated, th)
    if r.ok:
        vc.eq('Shape rotated (1)', r.value.g1, h1, scale=1)
        vc.eq('Shape rotated (2)', r.value.g2, h2, scale=1)
        vc.eq('original kept', a.g1, g1)
        vc.eq('original kept', a.g2, g2)
    r = vc.call(a.rotate, th)
    if r.ok:
        vc.eq('in place (1)', a.g1, h1, scale=1)
        vc.eq('in place (2)', a.g2, h2, scale=1)
        vc.eq('in place modulus', a.g * a.g, g1 * g1 + g2 * g2, scale=1)
    vc.cover('end')


def moms():
    import ngmix.moments as m
    return m


def shear_contract(vc):
    """call-site contract of the shear sum; proved by shear_range"""
    vc.contract('shear_reduced',
                pre=lambda vc, g1, g2, s1, s2: vc.And(g1 * g1 + g2 * g2 < 1, s1 * s1 + s2 * s2 < 1),
                post=lambda vc, r, *a: r[0] * r[0] + r[1] * r[1] < 1, why='shear_range')


def conversion_contracts(vc):
    """call-site contracts of the conversions; proved by g_to_e, kernel_g_to_e
    and e_to_g"""
    def g_to_e(vc, g1, g2):
        f = 2 / (1 + g1 * g1 + g2 * g2)
        return f * g1, f * g2

    def e_to_g(vc, e1, e2):
        f = 1 / (1 + vc.np.sqrt(1 - e1 * e1 - e2 * e2))
        return f * e1, f * e2

    def pre(vc, a, b):
        return False if hasattr(a, 'shape') and a.shape else a * a + b * b < 1
    vc.contract('g1g2_to_e1e2', pre=pre, result=g_to_e, why='g_to_e')
    vc.contract('e1e2_to_g1g2', pre=pre, result=e_to_g, why='e_to_g')


def posdef(vc, sfx=''):
    irr = vc.real('irr' + sfx, pos=True)
    icc = vc.real('icc' + sfx, pos=True)
    irc = vc.real('irc' + sfx, gen=lambda r: r.choice([0.0, r.uniform(-0.5, 0.5)]))
    vc.assume(irr * icc - irc * irc > 1e-6)
    return irr, irc, icc


def posdef_g(vc, sfx=''):
    """every positive definite matrix, through the parametrisation by reduced
    shear and trace (onto by moments_back_g of C03)"""
    g1, g2 = disk(vc, 'g1' + sfx, 'g2' + sfx)
    T = vc.real('T' + sfx, pos=True)
    q = g1 * g1 + g2 * g2
    vc.assume(q < 0.98)
    e1, e2 = 2 * g1 / (1 + q), 2 * g2 / (1 + q)
    return (1 - e1) * T / 2, e2 * T / 2, (1 + e1) * T / 2


@unit('C02', samples=100)
def sheared_moments(vc):
    """M' (1-|s|^2) = A M A^T, A = ((1+s1, s2), (s2, 1-s1)) in (col,row)"""
    M = moms()
    irr, irc, icc = posdef_g(vc)
    s1, s2 = disk(vc, 's1', 's2')
    ssq = s1 * s1 + s2 * s2
    vc.assume(ssq < 0.98)
    shear_contract(vc)
    conversion_contracts(vc)
    r = vc.call(M.get_sheared_moments, irr, irc, icc, s1, s2)
    if not r.ok:
        vc.true('only range errors', r.name == 'GMixRangeError')
        return
    jrr, jrc, jcc = r.value
    a, b, d = 1 + s1, s2, 1 - s1
    f = 1 - ssq
    sc = irr + icc
    vc.eq('cc', jcc * f, a * a * icc + 2 * a * b * irc + b * b * irr, scale=sc)
    vc.eq('rr', jrr * f, b * b * icc + 2 * b * d * irc + d * d * irr, scale=sc)
    vc.eq('rc', jrc * f, a * b * icc + (a * d + b * b) * irc + b * d * irr, scale=sc)
    vc.cover('end')


@unit('C02', samples=100)
def sheared_m1m2t(vc):
    """the same map in the (M1, M2, T) form"""
    M = moms()
    irr, irc, icc = posdef_g(vc)
    s1, s2 = disk(vc, 's1', 's2')
    ssq = s1 * s1 + s2 * s2
    vc.assume(ssq < 0.98)
    shear_contract(vc)
    conversion_contracts(vc)
    r = vc.call(M.get_sheared_M1M2T, icc - irr, 2 * irc, icc + irr, s1, s2)
    if not r.ok:
        vc.true('only range errors', r.name == 'GMixRangeError')
        return
    m1, m2, t = r.value
    a, b, d = 1 + s1, s2, 1 - s1
    f = 1 - ssq
    cc = a * a * icc + 2 * a * b * irc + b * b * irr
    rr = b * b * icc + 2 * b * d * irc + d * d * irr
    rc = a * b * icc + (a * d + b * b) * irc + b * d * irr
    sc = irr + icc
    vc.eq('M1', m1 * f, cc - rr, scale=sc)
    vc.eq('M2', m2 * f, 2 * rc, scale=sc)
    vc.eq('T', t * f, cc + rr, scale=sc)
    vc.cover('end')


@unit('C02')
def sheared_round(vc):
    """a round object acquires reduced shear s; the round size is kept"""
    M = moms()
    s1, s2 = disk(vc, 's1', 's2')
    T = vc.real('T', pos=True)
    ssq = s1 * s1 + s2 * s2
    vc.assume(ssq < 0.98)
    g1, g2, Ts = M.get_sheared_g1g2T(0.0, 0.0, T, s1, s2)
    vc.eq('g1', g1, s1)
    vc.eq('g2', g2, s2)
    vc.eq('T', Ts * (1 - ssq), T * (1 + ssq))
    vc.cover('end')


@unit('C02')
def gmix_sheared(vc):
    """a sheared mixture has every component's covariance mapped by the shear, and a consistent determinant"""
    import ngmix
    S = shapes()
    n = 1
    pars = []
    ms = []
    for i in range(n):
        p, row, col = vc.real('p%d' % i), vc.real('row%d' % i), vc.real('col%d' % i)
        irr, irc, icc = posdef_g(vc, str(i))
        ms.append((irr, irc, icc))
        pars += [p, row, col, irr, irc, icc]
    s1, s2 = disk(vc, 's1', 's2')
    ssq = s1 * s1 + s2 * s2
    vc.assume(ssq < 0.98)
    vc.assume(ssq > 0)
    gm = ngmix.GMix(pars=pars)
    shear_contract(vc)
    conversion_contracts(vc)
    r = vc.call(gm.get_sheared, S.Shape(s1, s2))
    if not r.ok:
        vc.true('only range errors', r.name == 'GMixRangeError')
        return
    d = r.value.get_data()
    o = gm.get_data()
    a, b, dd = 1 + s1, s2, 1 - s1
    f = 1 - ssq
    for i in range(n):
        irr, irc, icc = ms[i]
        sc = irr + icc
        vc.eq('cc', d['icc'][i] * f, a * a * icc + 2 * a * b * irc + b * b * irr, scale=sc)
        vc.eq('rr', d['irr'][i] * f, b * b * icc + 2 * b * dd * irc + dd * dd * irr, scale=sc)
        vc.eq('rc', d['irc'][i] * f, a * b * icc + (a * dd + b * b) * irc + b * dd * irr, scale=sc)
        vc.eq('det', d['det'][i], d['irr'][i] * d['icc'][i] - d['irc'][i] * d['irc'][i], scale=sc * sc)
        vc.eq('flux', d['p'][i], pars[6 * i])
        vc.eq('input kept', o['irr'][i], irr)
    vc.cover('end')


# ------------------------------------------------------------------ C03

@unit('C03')
def sizes(vc):
    M = moms()
    x = vc.real('x', pos=True)
    np = vc.np
    F = 2 * np.sqrt(2 * np.log(2.0))
    for a, b in (('sigma_to_fwhm', 'fwhm_to_sigma'), ('T_to_fwhm', 'fwhm_to_T'),
                 ('sigma_to_r50', 'r50_to_sigma'), ('T_to_r50', 'r50_to_T')):
        f, g = getattr(M, a), getattr(M, b)
        vc.eq('%s then %s' % (a, b), g(f(x)), x)
        vc.eq('%s then %s' % (b, a), f(g(x)), x)
    T = 2 * x * x
    k = 2.3548200450309493      # 2 sqrt(2 ln 2)
    vc.eq('fwhm of sigma', M.sigma_to_fwhm(x), k * x)
    vc.eq('fwhm of T', M.T_to_fwhm(T), k * x)
    vc.eq('r50 of sigma', M.sigma_to_r50(x), k * x / 2)
    vc.eq('r50 of T', M.T_to_r50(T), k * x / 2)
    vc.eq('T of fwhm', M.fwhm_to_T(k * x), T)
    vc.eq('T of r50', M.r50_to_T(k * x / 2), T)
    vc.cover('end')


@unit('C03')
def constant(vc):
    """the full width factor is 2 sqrt(2 ln 2)"""
    import math
    M = moms()
    vc.true('2 sqrt(2 ln 2)', abs(float(M.sigma_to_fwhm(1.0)) - 2 * math.sqrt(2 * math.log(2.0))) < 1e-12)


@unit('C03')
def size_arrays(vc):
    M = moms()
    x = vc.vec('x', 2, pos=True)
    for nm in ('sigma_to_fwhm', 'fwhm_to_sigma', 'T_to_fwhm', 'fwhm_to_T', 'sigma_to_r50', 'r50_to_sigma',
               'T_to_r50', 'r50_to_T'):
        f = getattr(M, nm)
        y = f(x)
        for i in range(2):
            vc.eq(nm, y[i], f(x[i]))
    vc.cover('end')


@unit('C03')
def e_moments(vc):
    M = moms()
    e1, e2 = disk(vc, 'e1', 'e2')
    T = vc.real('T', pos=True)
    esq = e1 * e1 + e2 * e2
    vc.assume(esq < 1)
    irr, irc, icc = M.e2mom(e1, e2, T)
    vc.eq('trace', irr + icc, T)
    vc.eq('difference', icc - irr, T * e1, scale=T)
    vc.eq('off diagonal', 2 * irc, T * e2, scale=T)
    vc.eq('determinant', 4 * (irr * icc - irc * irc), T * T * (1 - esq), scale=T * T)
    a, b, t = M.mom2e(irr, irc, icc)
    vc.eq('back e1', a, e1, scale=1)
    vc.eq('back e2', b, e2, scale=1)
    vc.eq('back T', t, T)
    m1, m2 = M.moms_to_e1e2(icc - irr, 2 * irc, icc + irr)
    vc.eq('moms_to_e1e2 e1', m1, e1, scale=1)
    vc.eq('moms_to_e1e2 e2', m2, e2, scale=1)
    vc.cover('end')


@unit('C03')
def g_moments(vc):
    M = moms()
    g1, g2 = disk(vc, 'g1', 'g2')
    T = vc.real('T', pos=True)
    gsq = g1 * g1 + g2 * g2
    vc.assume(gsq < 1)
    irr, irc, icc = M.g2mom(g1, g2, T)
    vc.eq('trace', irr + icc, T)
    vc.eq('difference', (icc - irr) * (1 + gsq), 2 * T * g1, scale=T)
    vc.eq('off diagonal', irc * (1 + gsq), T * g2, scale=T)
    vc.eq('determinant', 4 * (irr * icc - irc * irc) * (1 + gsq) ** 2, T * T * (1 - gsq) ** 2, scale=T * T)
    vc.cover('end')


@unit('C03')
def g_moments_back(vc):
    M = moms()
    g1, g2 = disk(vc, 'g1', 'g2')
    T = vc.real('T', pos=True)
    gsq = g1 * g1 + g2 * g2
    vc.assume(gsq < 0.98)
    irr, irc, icc = M.g2mom(g1, g2, T)
    r = vc.call(M.mom2g, irr, irc, icc)
    vc.true('accepted', r.ok)
    if r.ok:
        a, b, t = r.value
        vc.eq('back g1', a, g1, scale=1)
        vc.eq('back g2', b, g2, scale=1)
        vc.eq('back T', t, T)
    vc.cover('end')


@unit('C03')
def moments_back(vc):
    """moments -> shape -> moments, for every positive definite matrix"""
    M = moms()
    irr, irc, icc = posdef(vc)
    e1, e2, T = M.mom2e(irr, irc, icc)
    a = M.e2mom(e1, e2, T)
    for x, y in zip(a, (irr, irc, icc)):
        vc.eq('through e', x, y, scale=irr + icc)
    vc.cover('end')


@unit('C03')
def moments_back_g(vc):
    M = moms()
    irr, irc, icc = posdef(vc)
    r = vc.call(M.mom2g, irr, irc, icc)
    vc.true('accepted', r.ok)
    if r.ok:
        g1, g2, T = r.value
        vc.lt('|g| < 1', g1 * g1 + g2 * g2, 1)
        a = M.g2mom(g1, g2, T)
        for x, y in zip(a, (irr, irc, icc)):
            vc.eq('through g', x, y, scale=irr + icc)
    vc.cover('end')


@unit('C03')
def round_size(vc):
    M = moms()
    S = shapes()
    g1, g2 = disk(vc, 'g1', 'g2')
    T = vc.real('T', pos=True)
    gsq = g1 * g1 + g2 * g2
    vc.assume(gsq < 1)
    R = M.get_Tround(T, g1, g2)
    vc.eq('round size', R * (1 + gsq), T * (1 - gsq))
    vc.eq('T of round size', M.get_T(R, g1, g2), T)
    vc.eq('round size of T', M.get_Tround(M.get_T(T, g1, g2), g1, g2), T)
    vc.eq('round factor', S.get_round_factor(g1, g2) * T, R)
    vc.cover('end')


@unit('C03')
def nonpositive_T(vc):
    M = moms()
    m1, m2 = vc.real('m1'), vc.real('m2')
    T = vc.real('T')
    for wrap in (lambda x: x, lambda x: arr(vc, x, x)):
        r = vc.call(M.moms_to_e1e2, wrap(m1), wrap(m2), wrap(T))
        if vc.case(T <= 0):
            vc.true('T <= 0 refused', r.name == 'GMixRangeError')
        else:
            vc.true('T > 0 accepted', r.ok)
    vc.cover('end')
