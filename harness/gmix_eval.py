"""Evaluation of mixtures at pixels, likelihood sums, rendering."""
from pyvc.unit import unit

GF = ['p', 'row', 'col', 'irr', 'irc', 'icc', 'det', 'norm_set',
      'drr', 'drc', 'dcc', 'norm', 'pnorm']


def nb():
    import ngmix.gmix.gmix_nb as m
    return m


def sym_gmix(vc, name, n, **over):
    """mixture data with any number of gaussians, arbitrary norms (stale
    norms included); det is consistent and positive"""
    f = dict(
        p={}, row={}, col={},
        irr=dict(pos=True), irc=dict(gen=lambda r: r.uniform(-0.2, 0.2)), icc=dict(pos=True),
        det=dict(pos=True), norm_set=dict(gen=lambda r: 0), drr={}, drc={}, dcc={}, norm={}, pnorm={})
    f.update(over)
    return vc.symarr(name, n, f)


def pix(vc, name, n):
    return vc.symarr(name, n, dict(
        u={}, v={}, area=dict(pos=True), val={}, ierr=dict(pos=True), fdiff={}))


def dens(vc, g, k, v, u):
    """density of component k at (v,u) by the definition of a gaussian"""
    np = vc.np
    det = g['det'][k]
    dv = v - g['row'][k]
    du = u - g['col'][k]
    chi2 = (g['icc'][k] * dv * dv + g['irr'][k] * du * du - 2 * g['irc'][k] * dv * du) / det
    return g['p'][k] / (2 * np.pi * np.sqrt(det)), chi2


@unit('C06')
def set_norms_any(vc):
    """after setting the norms every component is normalised"""
    M = nb()
    n = vc.int('n', 1)
    gm = sym_gmix(vc, 'g', n)
    k = vc.at('k', n)
    vc.assume(gm['det'][k] >= 1e-3)
    r = vc.call(M.gmix_set_norms, gm)
    if not r.ok:
        vc.true('only range errors', r.name == 'GMixRangeError')
        return
    det = gm['det'][k]
    vc.eq('drr', gm['drr'][k] * det, gm['irr'][k])
    vc.eq('drc', gm['drc'][k] * det, gm['irc'][k])
    vc.eq('dcc', gm['dcc'][k] * det, gm['icc'][k])
    vc.eq('pnorm', gm['pnorm'][k] * 2 * vc.np.pi * vc.np.sqrt(det), gm['p'][k])
    vc.true('flag', gm['norm_set'][k] == 1)
    vc.cover('end')


@unit('C06')
def eval_exact(vc):
    M = nb()
    n = vc.int('n', 1)
    gm = sym_gmix(vc, 'g', n)
    px = pix(vc, 'px', vc.int('m', 1))
    p = px[0]
    val = M.gmix_eval_pixel(gm, p)
    vc.eq('sum over components', val, vc.sum(n, lambda k: gm['pnorm'][k] * vc.np.exp(-0.5 * (
        gm['dcc'][k] * (p['v'] - gm['row'][k]) ** 2 + gm['drr'][k] * (p['u'] - gm['col'][k]) ** 2
        - 2 * gm['drc'][k] * (p['v'] - gm['row'][k]) * (p['u'] - gm['col'][k]))) * p['area']))
    vc.cover('end')


def chi2_of(g, k, v, u):
    dv, du = v - g['row'][k], u - g['col'][k]
    return g['dcc'][k] * dv * dv + g['drr'][k] * du * du - 2 * g['drc'][k] * dv * du


NORMS = dict(drr=dict(pos=True), drc=dict(gen=lambda r: r.uniform(-0.3, 0.3)), dcc=dict(pos=True),
             pnorm=dict(gen=lambda r: r.choice([r.gauss(0, 1), r.uniform(0.1, 2)])))


@unit('C06', samples=60)
def eval_fast(vc):
    """fast exponential inside the chi squared limit, exactly zero outside, for any number of components"""
    M = nb()
    vc.opaque_fexp()
    n = vc.int('n', 1)
    gm = sym_gmix(vc, 'g', n, **NORMS)
    px = pix(vc, 'px', vc.int('m', 1))
    p = px[0]
    val = M.gmix_eval_pixel_fast(gm, p)

    def term(k):
        c = chi2_of(gm, k, p['v'], p['u'])
        inside = vc.And(c < 25, c >= 0)
        if not vc.symbolic:
            return gm['pnorm'][k] * vc.fexp(-0.5 * c) * p['area'] if inside else 0.0
        return vc.ite(inside, gm['pnorm'][k] * vc.fexp(-0.5 * c) * p['area'], 0.0)
    vc.eq('sum over components', val, vc.sum(n, term), scale=1)
    vc.cover('end')


@unit('C06', samples=60)
def eval_fast_one(vc):
    """one component: the limit, its boundary and the sign of chi squared"""
    M = nb()
    vc.opaque_fexp()
    g = vc.np.zeros(1, dtype=[(f, 'f8') for f in GF])
    pn, drc, v, u = vc.reals('pn drc v u')
    drr, dcc, area = vc.reals('drr dcc area', pos=True)
    g['drr'], g['dcc'], g['drc'], g['pnorm'] = drr, dcc, drc, pn
    p = vc.np.zeros(1, dtype=[(f, 'f8') for f in ('u', 'v', 'area')])
    p['u'], p['v'], p['area'] = u, v, area
    c = dcc * v * v + drr * u * u - 2 * drc * v * u
    val = M.gmix_eval_pixel_fast(g, p[0])
    if vc.case(vc.And(c >= 0, c < 25)):
        vc.eq('inside', val, pn * vc.fexp(-0.5 * c) * area)
    else:
        vc.eq('exactly zero outside', val, 0.0, tol=0.0)
    # on the boundary
    g['drr'], g['dcc'], g['drc'] = 1.0, 1.0, 0.0
    for a, b in ((5.0, 0.0), (0.0, -5.0), (3.0, 4.0), (6.0, 1.0)):
        p['v'], p['u'] = a, b
        vc.eq('zero at the limit and beyond', M.gmix_eval_pixel_fast(g, p[0]), 0.0, tol=0.0)
    p['v'], p['u'] = 3.0, -3.5
    vc.eq('below the limit', M.gmix_eval_pixel_fast(g, p[0]), pn * vc.fexp(-10.625) * area)
    vc.cover('end')


@unit('C06', samples=80)
def normalised(vc):
    """norms plus evaluation give flux times the normalised density of each component times the area"""
    M = nb()
    n = vc.int('n', 1)
    gm = sym_gmix(vc, 'g', n)
    k = vc.at('k', n)
    if not vc.symbolic:
        for j in range(n):
            vc.assume(gm['det'][j] > 1e-3)
    px = pix(vc, 'px', 1)
    r = vc.call(M.gmix_set_norms, gm)
    vc.assume(r.ok)
    p = px[0]
    val = M.gmix_eval_pixel(gm, p)
    np = vc.np

    def term(j):
        dv, du = p['v'] - gm['row'][j], p['u'] - gm['col'][j]
        det = gm['det'][j]
        c = (gm['icc'][j] * dv * dv + gm['irr'][j] * du * du - 2 * gm['irc'][j] * dv * du) / det
        return gm['p'][j] * (1 / (2 * np.pi * np.sqrt(det))) * np.exp(-0.5 * c) * p['area']
    vc.eq('flux times normalised density times area', val, vc.sum(n, term), scale=1)
    vc.cover('end')


def eval_stubs(vc):
    """the value at a pixel (decided by eval_exact and eval_fast) is some function of its position and area"""
    import math
    import ngmix.gmix.render_nb as R
    ex = vc.ufun('evalexact', lambda v, u, a: math.sin(v + 2 * u) * a)
    fa = vc.ufun('evalfast', lambda v, u, a: math.cos(v + 3 * u) * a)
    if vc.symbolic:
        vc.patch(R, 'gmix_eval_pixel', lambda g, p: ex(p['v'], p['u'], p['area']))
        vc.patch(R, 'gmix_eval_pixel_fast', lambda g, p: fa(p['v'], p['u'], p['area']))
        return lambda gm, p, fast: (fa if fast else ex)(p['v'], p['u'], p['area'])
    M = nb()
    return lambda gm, p, fast: (M.gmix_eval_pixel_fast if fast else M.gmix_eval_pixel)(gm, p)


def some_gmix(vc, n=2, flux=True):
    """n components with arbitrary admissible parameters"""
    import ngmix
    pars = []
    for i in range(n):
        a, b = vc.reals('ga%d gb%d' % (i, i), pos=True)
        c = vc.real('gc%d' % i, gen=lambda r: r.uniform(-0.1, 0.1))
        vc.assume(a * b - c * c > 1e-3)
        pars += [vc.real('gp%d' % i), vc.real('gr%d' % i), vc.real('gl%d' % i), a, c, b]
    return ngmix.GMix(pars=pars)


@unit('C06', cases=[0, 1], samples=40)
def render_any(vc, fast):
    """each element of the image gets its own value, once; any number of pixels"""
    import ngmix.gmix.render_nb as R
    E = eval_stubs(vc)
    gm = some_gmix(vc, 1)
    m = vc.int('m', 1)
    px = pix(vc, 'px', m)
    extra = vc.int('extra', 0)
    im = vc.symarr('im', m + extra, {None: {}})
    keep = im.copy()
    pk = px.copy()
    R.render(gm.get_data(), px, im, fast)
    vc.true('norms set', gm.get_data()['norm_set'][0] == 1)
    k = vc.at('k', m)
    vc.eq('old value plus mixture value', im[k], keep[k] + E(gm.get_data(), px[k], fast), scale=1)
    for f in ('u', 'v', 'area'):
        vc.eq('coordinates unchanged', px[f][k], pk[f][k])
    if vc.case(extra > 0):
        j = vc.at('j', extra)
        vc.eq('elements beyond the pixels unchanged', im[m + j], keep[m + j])
    vc.cover('end')


@unit('C06', cases=[(f, j) for f in (0, 1) for j in (0, 1)], samples=30)
def image_any(vc, case):
    """images of any size: each pixel has the value of the mixture at its own coordinates, in row-major order"""
    import ngmix
    from harness.obsdata import some_jacobian
    from harness.simulated import same_jac
    fast, given = case
    E = eval_stubs(vc)
    gm = some_gmix(vc, 1)
    d = gm.get_data()
    gm.set_norms()
    keep = d.copy()
    nr, nc = vc.int('nr', 1), vc.int('nc', 1)
    i, j = vc.at('i', nr), vc.at('j', nc)
    jac = some_jacobian(vc) if given else None
    seen = []
    if vc.symbolic:
        co = pix(vc, 'co', nr * nc)

        def make_coords(dims, jacob):
            # contract (C10): element i*nc + j is the position of pixel i, j
            vc.true('coordinates of the image', vc.And(dims[0] == nr, dims[1] == nc))
            seen.append(jacob)
            return co
        vc.patch_everywhere('make_coords', make_coords)
    im = gm.make_image((nr, nc), jacobian=jac, fast_exp=bool(fast))
    vc.true('shape', vc.And(len(im.shape) == 2, im.shape[0] == nr, im.shape[1] == nc))
    want = jac if given else ngmix.UnitJacobian(row=(nr - 1) / 2, col=(nc - 1) / 2)
    if vc.symbolic:
        if len(seen) != 1:
            from pyvc.engine import Unsupported
            raise Unsupported('coordinates made in another way')
        same_jac(vc, 'transformation', seen[0], want)
    else:
        from ngmix.pixels import make_coords
        co = make_coords((nr, nc), want)
    vc.eq('pixel', im[i, j], E(d, co[i * nc + j], fast), scale=1)
    for f in ('p', 'row', 'col', 'irr', 'irc', 'icc', 'det'):
        vc.eq('mixture unchanged', d[f], keep[f])
    vc.cover('end')


@unit('C06', cases=[(2, 3, 0), (3, 2, 1), (1, 4, 0), (4, 1, 1), (1, 1, 0)], samples=40, cost=2,
      bound='images of up to 6 pixels for the layout of make_image (the pixel loop is proved for any number)')
def image(vc, case):
    """row-major layout, positions by the coordinate transformation, default transformation centred on the image"""
    import ngmix
    nr, nc, fast = case
    E = eval_stubs(vc)
    gm = some_gmix(vc, 1)
    d = gm.get_data()
    gm.set_norms()
    keep = d.copy()
    which = vc.bool('jac')
    if vc.case(which):
        a, b, c, e, r0, c0 = vc.reals('dvdrow dvdcol dudrow dudcol row0 col0')
        det = a * e - b * c
        vc.assume(det * det > 1e-2)
        jac = ngmix.Jacobian(row=r0, col=c0, dvdrow=a, dvdcol=b, dudrow=c, dudcol=e)
        area = vc.ite(det > 0, det, -det)
    else:
        a, b, c, e, r0, c0, area = 1.0, 0.0, 0.0, 1.0, (nr - 1) / 2.0, (nc - 1) / 2.0, 1.0
        jac = None
    im = gm.make_image((nr, nc), jacobian=jac, fast_exp=bool(fast))
    vc.true('shape', im.shape == (nr, nc))
    p = vc.np.zeros(1, dtype=[(f, 'f8') for f in ('u', 'v', 'area')])
    for i in range(nr):
        for j in range(nc):
            p['v'] = a * (i - r0) + b * (j - c0)
            p['u'] = c * (i - r0) + e * (j - c0)
            p['area'] = area
            if vc.symbolic:
                want = E(d, p[0], fast)
            else:
                want = E(d, p[0], fast)
            vc.eq('pixel', im[i, j], want, scale=1)
    for f in ('p', 'row', 'col', 'irr', 'irc', 'icc', 'det'):
        vc.eq('mixture unchanged', d[f], keep[f])
    for bad in ((2,), (2, 3, 4), 5):
        r = vc.call(gm.make_image, bad)
        vc.true('two dimensions required', not r.ok and r.name == 'ValueError')
    vc.cover('end')
