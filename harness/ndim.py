"""N-dimensional mixtures."""
from pyvc.unit import unit


def nb():
    import ngmix.gmix_ndim.gmix_ndim_nb as m
    return m


def parts(vc, nd, n):
    lp = vc.symarr('lp', n, {None: {}})
    mu = vc.symarr('mu', (n, nd), {None: {}})
    ic = vc.symarr('ic', (n, nd, nd), {None: dict(gen=lambda r: r.uniform(-0.4, 1.0))})
    return lp, mu, ic


def chi2(mu, ic, x, k, nd):
    return sum((x[i] - mu[k, i]) * (x[j] - mu[k, j]) * ic[k, i, j] for i in range(nd) for j in range(nd))


@unit('C22', cases=[(nd, lg) for nd in (1, 2, 3) for lg in (0, 1)], samples=40)
def total(vc, case):
    """any number of components: the sum of the components, or its logarithm"""
    nd, lg = case
    M = nb()
    n = vc.int('n', 1, gen=lambda r: r.randrange(1, 7))
    lp, mu, ic = parts(vc, nd, n)
    x = vc.vec('x', nd)
    x0 = x.copy()
    xd = vc.np.zeros(nd)
    tmp = vc.symarr('tmp', n, {None: {}})
    r = M.gmixnd_get_prob(lp, mu, ic, x, xd, tmp, lg)
    want = vc.sum(n, lambda k: vc.np.exp(lp[k] - 0.5 * chi2(mu, ic, x, k, nd)))
    vc.eq('sum of components', vc.np.exp(r) if lg else r, want, scale=1e-300)
    vc.eq('point kept', x, x0, tol=0)
    vc.cover('end')


@unit('C22', cases=[(nd, lg) for nd in (1, 2, 3) for lg in (0, 1)], samples=40)
def component(vc, case):
    """one component"""
    nd, lg = case
    M = nb()
    n = vc.int('n', 1, gen=lambda r: r.randrange(1, 7))
    lp, mu, ic = parts(vc, nd, n)
    x = vc.vec('x', nd)
    k = vc.at('k', n)
    r = M.gmixnd_get_prob_component(lp, mu, ic, x, vc.np.zeros(nd), lg, k)
    w = lp[k] - 0.5 * chi2(mu, ic, x, k, nd)
    vc.eq('component', r, w if lg else vc.np.exp(w), scale=1e-300 if not lg else 1)
    for bad in (-1, n, n + 3):
        q = vc.call(M.gmixnd_get_prob_component, lp, mu, ic, x, vc.np.zeros(nd), lg, bad)
        vc.true('no such component', not q.ok and q.name == 'AssertionError')
    vc.cover('end')


def cov(vc, nm, nd):
    """a positive definite matrix as the product of a triangular one with itself"""
    L = [[vc.real('%s%d%d' % (nm, i, j), **(dict(pos=True, gen=lambda r: r.uniform(0.3, 2)) if i == j else dict(lo=-1.0, hi=1.0))) if j <= i else 0.0
          for j in range(nd)] for i in range(nd)]
    c = vc.np.zeros((nd, nd))
    for i in range(nd):
        for j in range(nd):
            c[i, j] = sum(L[i][k] * L[j][k] for k in range(nd))
    det = 1.0
    for i in range(nd):
        det = det * L[i][i] * L[i][i]
    return c, det, L


def quad(vc, L, d):
    """d C^-1 d by forward substitution"""
    z = []
    for i in range(len(d)):
        z.append(vc.quot(d[i] - sum(L[i][j] * z[j] for j in range(i)), L[i][i]))
    return sum(x * x for x in z)


@unit('C22', cases=[(1, 1), (1, 2), (2, 1), (2, 2), (3, 1)], samples=30, budget=200)
def density(vc, case):
    """weighted normal densities from weights, means and covariances; inputs are copied"""
    from ngmix.gmix_ndim import GMixND
    nd, n = case
    w = vc.np.array([vc.real('w%d' % k, pos=True) for k in range(n)])
    cs = [cov(vc, 'L%d' % k, nd) for k in range(n)]
    flat = nd == 1
    mu = vc.vec('mu', n) if flat else vc.mat('mu', (n, nd))
    C = vc.np.zeros(n) if flat else vc.np.zeros((n, nd, nd))
    for k in range(n):
        if flat:
            C[k] = cs[k][0][0, 0]
        else:
            C[k] = cs[k][0]
    g = GMixND(weights=w, means=mu, covars=C, rng=vc.rng('rng'))
    x = vc.vec('x', nd)
    m = lambda k, i: mu[k] if flat else mu[k, i]
    e = []
    for k in range(n):
        q = quad(vc, cs[k][2], [x[i] - m(k, i) for i in range(nd)])
        e.append((w[k] / vc.np.sqrt((2 * vc.np.pi) ** nd * cs[k][1]), q))
        vc.eq('norm', g.pnorms[k] * vc.np.sqrt((2 * vc.np.pi) ** nd * cs[k][1]), w[k], tol=1e-6)
        vc.eq('logarithm of the norm', vc.np.exp(g.log_pnorms[k]), g.pnorms[k])
        # the inverse is the inverse
        for i in range(nd):
            for j in range(nd):
                vc.eq('inverse', sum(g.icovars[k, i, l] * cs[k][0][l, j] for l in range(nd)), 1.0 if i == j else 0.0, tol=1e-6, scale=1)
    arg = x[0] if flat else x
    P = g.get_prob_scalar(arg)
    total = 0.0
    for k in range(n):
        d = [x[i] - m(k, i) for i in range(nd)]
        ch = sum(d[i] * d[j] * g.icovars[k, i, j] for i in range(nd) for j in range(nd))
        if nd < 3:
            vc.eq('chi squared', ch, e[k][1], tol=1e-6)
        pk = g.get_prob_scalar(arg, component=k)
        vc.eq('component', pk, g.pnorms[k] * vc.np.exp(-0.5 * ch), tol=1e-6, scale=1e-300)
        vc.eq('logarithm of a component', vc.np.exp(g.get_lnprob_scalar(arg, component=k)), pk, scale=1e-300)
        total = total + g.pnorms[k] * vc.np.exp(-0.5 * ch)
    vc.eq('sum', P, total, scale=1e-300)
    vc.eq('logarithm', vc.np.exp(g.get_lnprob_scalar(arg)), total, scale=1e-300)
    # arrays of points
    y = vc.vec('y', nd)
    pts = vc.np.array([x[0], y[0]]) if flat else vc.np.array([[x[i] for i in range(nd)], [y[i] for i in range(nd)]])
    oth = y[0] if flat else y
    for comp in (None, n - 1):
        vc.eq('array', g.get_prob_array(pts, component=comp), [g.get_prob_scalar(arg, component=comp), g.get_prob_scalar(oth, component=comp)], scale=1e-300)
        vc.eq('array of logarithms', g.get_lnprob_array(pts, component=comp),
              [g.get_lnprob_scalar(arg, component=comp), g.get_lnprob_scalar(oth, component=comp)], scale=1)
    # copies
    w0 = g.weights[0]
    w[0] = 5.0
    C[0] = 7.0
    mu[0] = 3.0
    vc.eq('weights copied', g.weights[0], w0, tol=0)
    vc.eq('same afterwards', g.get_prob_scalar(arg), P, tol=0)
    vc.cover('end')


@unit('C22', samples=2)
def incomplete(vc):
    """all of weights, means and covariances or none"""
    from ngmix.gmix_ndim import GMixND
    a = vc.np.ones(1)
    for k in range(1, 7):
        kw = {nm: a for b, nm in enumerate(('weights', 'means', 'covars')) if k >> b & 1}
        r = vc.call(GMixND, rng=vc.rng('r'), **kw)
        vc.true('refused', not r.ok and r.name == 'RuntimeError')
    vc.cover('end')


@unit('C22', samples=40, prove=False)
def far(vc):
    """the logarithm of the density at any distance"""
    import numpy as np
    from ngmix.gmix_ndim import GMixND
    nd, n = vc.int('nd', 1, 3), vc.int('n', 1, 4)
    rs = np.random.RandomState(vc.int('seed', 0, 10 ** 6))
    mu, w = rs.normal(size=(n, nd)), rs.uniform(0.1, 1, size=n)
    C = np.array([np.diag(10.0 ** rs.uniform(-8, 2, size=nd)) for k in range(n)])
    g = GMixND(weights=w, means=mu, covars=C)
    x = rs.normal(size=nd) * 10.0 ** vc.int('far', 0, 7)
    l = np.array([np.log(w[k]) - 0.5 * np.log((2 * np.pi) ** nd * np.linalg.det(C[k])) - 0.5 * np.sum((x - mu[k]) ** 2 / np.diag(C[k])) for k in range(n)])
    want = l.max() + np.log(np.exp(l - l.max()).sum())
    got = g.get_lnprob_scalar(x)
    vc.eq('logarithm', got, want, tol=1e-6, scale=1)
    vc.eq('probability', g.get_prob_scalar(x), np.exp(want), tol=1e-4, scale=1e-300)
    vc.eq('array', g.get_lnprob_array(x.reshape(1, nd))[0], got, tol=0)
    vc.cover('end')
