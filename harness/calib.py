"""Metacalibration."""
from pyvc.unit import unit
from harness.obsdata import weight_map, some_jacobian
from harness.simulated import same_obs, same_jac, expected_noise
from harness.galsimstub import Stub

ALL = ['noshear', '1p', '1m', '2p', '2m', '1p_psf', '1m_psf', '2p_psf', '2m_psf']
GAL = ALL[:5]
SIGN = {'1p': (1, 0), '1m': (-1, 0), '2p': (0, 1), '2m': (0, -1)}


def MC():
    import ngmix.metacal as m
    return m


def source(vc, tag='', shape=(1, 2), psf_shape=(1, 1), positive=False, noise=False, gmix=False):
    import ngmix
    im = vc.mat('im' + tag, shape)
    w = vc.mat('w' + tag, shape, pos=True) if positive else weight_map(vc, 'w' + tag, shape)
    vc.assume(vc.Or(*[x > 0 for x in w.ravel()]))
    pim = vc.mat('pim' + tag, psf_shape, pos=True)
    p = ngmix.Observation(pim, weight=vc.np.ones(psf_shape), jacobian=some_jacobian(vc, 'p' + tag), meta={'a': [1]},
                          gmix=ngmix.GMixModel([0.0, 0.0, 0.05, 0.02, 4.0, 1.0], 'gauss') if gmix else None)
    k = dict(noise=vc.mat('nz' + tag, shape)) if noise else {}
    return ngmix.Observation(im, weight=w, jacobian=some_jacobian(vc, tag), psf=p, meta={'b': [2]}, **k)


def wcs_of(jac):
    return (jac.dudcol, jac.dudrow, jac.dvdcol, jac.dvdrow)


def step_of(vc):
    return vc.real('step', lo=1e-6, hi=0.4, gen=lambda r: r.choice([0.01, 0.4 * r.random(), 10 ** r.uniform(-5.9, -0.5)]))


class Expect(object):
    """what the images have to be"""

    def __init__(self, vc, G, obs, step, psf, image=None):
        self.vc, self.G, self.step, self.psf = vc, G, step, psf
        self.wcs = wcs_of(obs.jacobian)
        self.shape = obs.image.shape
        a = obs.image.copy() if image is None else image
        self.gal = G.image_leaf(a, self.wcs)
        self.pwcs = wcs_of(obs.psf.jacobian)
        a = obs.psf.image.copy()
        self.pshape = a.shape
        self.psf_flux = None if G.any else sum(a.ravel())
        self.pint = G.image_leaf(a, self.pwcs)
        self.pixel = ('pixel', 1, self.wcs)
        self.core = None            # of the gaussian kinds

    def target(self, shears=()):
        f = 1 + 2 * self.step
        if self.psf == 'dilate':
            return [(self.pint, 1, 0, f, shears), (self.pixel, -1, 0, f, shears), (self.pixel, 1, 0, 1.0, ())]
        return [(self.core, 1, 0, f, ())]

    def shear(self, t):
        a, b = SIGN[t[:2]]
        return (a * self.step, b * self.step)

    def images(self, t):
        """galaxy and psf image of type t"""
        if t == 'noshear':
            s, tg = (), self.target()
        elif t.endswith('_psf'):
            s, tg = (), self.target((self.shear(t),))
        else:
            s, tg = (self.shear(t),), self.target()
        gal = [(self.gal, 1, 0, 1.0, s), (self.pint, -1, 0, 1.0, s)] + tg
        return (self.G.image_of(gal, self.shape, self.wcs, 'no_pixel'), self.G.image_of(tg, self.pshape, self.pwcs, 'no_pixel'))


def arrays(vc, nm, a, b, **k):
    if hasattr(a, 'dims') or hasattr(b, 'dims'):
        n, m = b.shape
        vc.true(nm + ': shape', vc.And(len(a.shape) == 2, a.shape[0] == n, a.shape[1] == m))
        i, j = vc.at('i', n), vc.at('j', m)
        vc.eq(nm, a[i, j], b[i, j], **k)
        return
    vc.true(nm + ': shape', tuple(a.shape) == tuple(b.shape))
    for x, y in zip(a.ravel(), b.ravel()):
        vc.eq(nm, x, y, **k)


def gauss_core(vc, G):
    """the round gaussian of amplitude 0.003 where the transform of the psf
    falls under a hundredth (stand-in: at 5 steps of a quarter of stepk)"""
    np = vc.np
    k2 = 4 * (G.stepk() / 4) ** 2
    return np.sqrt(-2 * np.log(3.0e-3) / k2)


def check_type(vc, t, o, ex, before, psf_noise=None, kind='dilate'):
    im, pim = ex.images(t)
    arrays(vc, 'image', o.image, im, scale=1)
    arrays(vc, 'weight', o.weight, before.weight, tol=0)
    same_jac(vc, 'image', o.jacobian, before.jacobian)
    vc.true('metadata', dict(o.meta) == dict(before.meta))
    if kind == 'dilate':
        arrays(vc, 'psf image', o.psf.image, pim, scale=1)
        arrays(vc, 'psf weight', o.psf.weight, before.psf.weight, tol=0)
        same_jac(vc, 'psf', o.psf.jacobian, before.psf.jacobian)
    else:
        n, wt = psf_noise
        arrays(vc, 'psf image', o.psf.image, pim + n, scale=1)
        arrays(vc, 'psf weight', o.psf.weight, wt, scale=wt.ravel()[0])
        j = before.psf.jacobian.copy()
        sh = before.psf.image.shape
        j.set_cen(row=(sh[0] - 1) / 2.0, col=(sh[1] - 1) / 2.0)
        same_jac(vc, 'psf', o.psf.jacobian, j)


def no_pixel_list(vc):
    """contract of the pixel list (C10, C12): made where there is a usable pixel, and of no interest here"""
    import ngmix.observation as OB
    vc.patch(OB, 'make_pixels', lambda image, weight, jacob, ignore_zero_weight=True: vc.np.zeros(1))


class AnySource(object):
    """an observation of any size and what it holds; with one side when square"""

    def __init__(self, vc, tag='', square=False, noise=False):
        import ngmix
        from harness.obsdata import any_map
        self.vc = vc
        nr = vc.int('nr' + tag, 1)
        nc = nr if square else vc.int('nc' + tag, 1)
        pn, pm = vc.int('pnr' + tag, 1), vc.int('pnc' + tag, 1)
        self.im, self.w, self.pim = any_map(vc, 'im' + tag, nr, nc), any_map(vc, 'w' + tag, nr, nc, True), any_map(vc, 'pim' + tag, pn, pm)
        self.nz = any_map(vc, 'nz' + tag, nr, nc) if noise else None
        self.jac, self.pjac = some_jacobian(vc, tag), some_jacobian(vc, 'p' + tag)
        self.shape = nr, nc
        psf = ngmix.Observation(self.pim.copy(), jacobian=self.pjac, meta={'a': [1]})
        k = dict(noise=self.nz.copy()) if noise else {}
        self.obs = ngmix.Observation(self.im.copy(), weight=self.w.copy(), jacobian=self.jac, psf=psf, meta={'b': [2]}, **k)
        self.before = self.obs.copy()

    def untouched(self, nm='input untouched'):
        vc, o = self.vc, self.obs
        arrays(vc, nm, o.image, self.im, tol=0)
        arrays(vc, nm, o.weight, self.w, tol=0)
        arrays(vc, nm, o.psf.image, self.pim, tol=0)
        if self.nz is not None:
            arrays(vc, nm, o.noise, self.nz, tol=0)
        vc.eq(nm, o.psf.weight[vc.at('i', self.pim.shape[0]), vc.at('j', self.pim.shape[1])], 1.0, tol=0)
        same_jac(vc, nm, o.jacobian, self.jac)
        same_jac(vc, nm, o.psf.jacobian, self.pjac)
        vc.true(nm, dict(o.meta) == {'b': [2]} and dict(o.psf.meta) == {'a': [1]})


def keys_for(types):
    r = set(types)
    if r & {'noshear', '1p'}:
        r |= {'noshear', '1p'}
    return r


SUBSETS = [None, ['noshear'], ['1p'], ['2m_psf', '1m'], ['2p', '1p_psf', '2m'], ['1m_psf', 'noshear', '2p_psf'], list(reversed(ALL)),
           ['2m', '1m', '2p', 'noshear', '1p']]


@unit('C15', cases=list(range(len(SUBSETS))), samples=15, bound='images of 1 x 2 and psfs of 1 x 1 pixels')
def dilated(vc, case):
    """shears, signs and target psfs of all types"""
    types = SUBSETS[case]
    o = source(vc)
    before = o.copy()
    s = step_of(vc)
    with Stub(vc) as G:
        ex = Expect(vc, G, o, s, 'dilate')
        r = MC().get_all_metacal(o, psf='dilate', step=s, fixnoise=False, types=None if types is None else list(types))
        vc.true('types', set(r) == keys_for(types or ALL))
        for t in sorted(r):
            check_type(vc, t, r[t], ex, before)
            vc.true('new observation', r[t] is not o and r[t].psf is not o.psf)
    same_obs(vc, 'input untouched', o, before)
    vc.cover('end')


@unit('C15', cases=list(range(len(SUBSETS))), samples=15)
def dilated_any(vc, case):
    """shears, signs and target psfs of all types; images of any size"""
    types = SUBSETS[case]
    no_pixel_list(vc)
    a = AnySource(vc)
    s = step_of(vc)
    with Stub(vc, any=True) as G:
        ex = Expect(vc, G, a.before, s, 'dilate')
        r = MC().get_all_metacal(a.obs, psf='dilate', step=s, fixnoise=False, types=None if types is None else list(types))
        vc.true('types', set(r) == keys_for(types or ALL))
        for t in sorted(r):
            check_type(vc, t, r[t], ex, a.before)
            vc.true('new observation', r[t] is not a.obs and r[t].psf is not a.obs.psf)
    a.untouched()
    vc.cover('end')


@unit('C15', cases=[(k, n, t) for k in ('gauss', 'object', 'fitgauss') for n in (0, 1) for t in (None, ('2p', '1m'), ('noshear',)) if not (k == 'fitgauss' and not n)],
      samples=15, bound='images of 1 x 2 pixels')
def round_targets(vc, case):
    """the same round target for all types, with a little noise in its image"""
    import ngmix
    kind, with_rng, types = case
    np = vc.np
    o = source(vc, shape=(2, 1), psf_shape=(1, 2), positive=True, gmix=True)
    before = o.copy()
    s = step_of(vc)
    rng = vc.rng('g') if with_rng else None
    with Stub(vc) as G:
        ex = Expect(vc, G, o, s, kind)
        if kind == 'object':
            psf = G.mod.leaf(('given',))
            ex.core = ('given',)
        else:
            psf = kind
            if kind == 'gauss':
                ex.core = ('gaussian', gauss_core(vc, G), ex.psf_flux)
            else:
                # the result of the fit of the psf: any round or elongated gaussian
                e1, e2 = vc.real('e1', lo=-0.6, hi=0.6), vc.real('e2', lo=-0.6, hi=0.6)
                T = vc.real('T', pos=True)
                import ngmix.runners
                vc.patch(ngmix.runners, 'run_psf_fitter', lambda **k: dict(flags=0, e=[e1, e2], T=T, e1=e1, e2=e2))
                vc.patch(MC().metacal, '_get_ellip_dilation', lambda a, b, c: ell_dilation(vc, a, b))
                ex.core = ('gaussian', np.sqrt(T * ell_dilation(vc, e1, e2) / 2), ex.psf_flux)
        r = MC().get_all_metacal(o, psf=psf, step=s, fixnoise=False, rng=rng, types=None if types is None else list(types))
        vc.true('types', set(r) == keys_for(types or GAL))
        m = before.psf.image
        big = m[0, 0] if vc.case(m[0, 0] > m[0, 1]) else m[0, 1]
        sig = big / 50000.0
        z = rng.log if with_rng else [0.0, 0.0]
        vc.true('draws', len(z) == 2)
        nz = np.array([[sig * z[0], sig * z[1]]])
        wt = np.zeros((1, 2)) + 1 / sig ** 2
        for t in sorted(r):
            check_type(vc, t, r[t], ex, before, (nz, wt), kind)
        for t in ('1p_psf', '2x'):
            vc.true('no such type', vc.call(MC().get_all_metacal, o, psf=psf, step=s, fixnoise=False, rng=rng, types=[t]).name == 'AssertionError')
        if kind == 'fitgauss':
            vc.true('generator needed', vc.call(MC().get_all_metacal, o, psf=psf, step=s, fixnoise=False).name == 'ValueError')
    vc.unpatch()
    same_obs(vc, 'input untouched', o, before)
    vc.cover('end')


def ell_dilation(vc, e1, e2):
    """by how much to grow a gaussian of this shape: twice the excess of its
    longest axis, at most a tenth"""
    np = vc.np
    d = 1 + 2 * (np.sqrt(1 + np.sqrt(e1 * e1 + e2 * e2)) - 1)
    return d if vc.case(d <= 1.1) else 1.1


@unit('C15', samples=100)
def elongation(vc):
    import ngmix
    e1, e2, T = vc.real('e1', lo=-0.6, hi=0.6), vc.real('e2', lo=-0.6, hi=0.6), vc.real('T', pos=True)
    vc.eq('dilation', MC().metacal._get_ellip_dilation(e1, e2, T), ell_dilation(vc, e1, e2), tol=1e-7)
    vc.cover('end')


def square(vc, tag='', noise=False, psf_shape=(1, 1), plain=True):
    import ngmix
    im = vc.mat('im' + tag, (2, 2))
    w = vc.mat('w' + tag, (2, 2), pos=True)
    if not plain:
        w = w.copy()
        w[0, 1] = vc.real('wany' + tag, gen=lambda r: r.choice([0.0, 0.0, 1.0, 2.0]))
        vc.assume(w[0, 1] >= 0)
    p = ngmix.Observation(vc.mat('pim' + tag, psf_shape, pos=True), weight=vc.np.ones(psf_shape), jacobian=some_jacobian(vc, 'p' + tag))
    k = dict(noise=vc.mat('nz' + tag, (2, 2))) if noise else {}
    return ngmix.Observation(im, weight=w, jacobian=some_jacobian(vc, tag), psf=p, meta={'b': [tag]}, **k)


def turned(vc, a, k):
    """by k quarters counterclockwise"""
    n = a.shape[0]
    r = a.copy()
    for _ in range(k % 4):
        b = r.copy()
        for i in range(n):
            for j in range(n):
                r[i, j] = b[j, n - 1 - i]
    return r


def check_fixed(vc, t, o, ex, exn, before):
    im = ex.images(t)[0] + turned(vc, exn.images(t)[0], 3)
    arrays(vc, 'image with noise', o.image, im, scale=1)
    for x, y in zip(o.weight.ravel(), before.weight.ravel()):
        if vc.case(y == 0):
            vc.eq('weight of unknown pixels', x, 0.0, tol=0)
        else:
            vc.eq('weight', x, 1 / (1 / y + 1 / y))
    same_jac(vc, 'image', o.jacobian, before.jacobian)
    arrays(vc, 'psf weight', o.psf.weight, before.psf.weight, tol=0)


NOISY = [('dilate', u, t) for u in (0, 1) for t in (('1p',), ('2m_psf', '2m', 'noshear'))]


@unit('C15', cases=NOISY, samples=12, bound='images of 2 x 2 pixels')
def noise_added(vc, case):
    """the correction noise goes through the same operations, turned by a quarter and back"""
    np = vc.np
    psf, use, types = case
    o = square(vc, noise=use, plain=False)
    before = o.copy()
    s = step_of(vc)
    rng = None if use else vc.rng('g')
    with Stub(vc) as G:
        r = MC().get_all_metacal(o, psf=psf, step=s, fixnoise=True, rng=rng, use_noise_image=bool(use), types=list(types))
        if use:
            nz = before.noise
        else:
            vc.true('one draw for each pixel', len(rng.log) == 4)
            nz = np.array(expected_noise(vc, before.weight, rng.log, True, None)).reshape(2, 2)
        ex = Expect(vc, G, o, s, psf)
        exn = Expect(vc, G, o, s, psf, image=turned(vc, nz, 1))
        vc.true('types', set(r) == keys_for(types))
        for t in sorted(r):
            check_fixed(vc, t, r[t], ex, exn, before)
            arrays(vc, 'psf image', r[t].psf.image, ex.images(t)[1], scale=1)
    same_obs(vc, 'input untouched', o, before)
    vc.cover('end')


@unit('C15', cases=[(k, f, t) for k in ('dilate', 'object') for f in (0, 1) for t in (0, 1, 2)], samples=12, bound='images of 2 x 2 pixels')
def any_order(vc, case):
    """images and draws do not depend on the order in which types are asked for"""
    kind, fix, which = case
    a, b = [(['1p', '2m'], ['2m', '1p']), (['2p', '1m', '1p'], ['1p', '2p', '1m']), (['noshear', '1m'], ['1m', '1p', 'noshear'])][which]
    if kind == 'dilate':
        a, b = a + ['2p_psf'], ['2p_psf'] + b
    o = square(vc)
    s = step_of(vc)
    with Stub(vc) as G:
        psf = kind if kind == 'dilate' else G.mod.leaf(('given',))
        rs = [MC().get_all_metacal(o, psf=psf, step=s, fixnoise=bool(fix), rng=vc.rng('g'), types=list(t)) for t in (a, b)]
        vc.true('types', set(rs[0]) == set(rs[1]) == keys_for(a))
        for t in sorted(rs[0]):
            arrays(vc, 'image', rs[0][t].image, rs[1][t].image, scale=1)
            arrays(vc, 'weight', rs[0][t].weight, rs[1][t].weight, scale=1)
            arrays(vc, 'psf', rs[0][t].psf.image, rs[1][t].psf.image, scale=1)
    vc.cover('end')


@unit('C15', cases=[(f, t) for f in (0, 1) for t in (0, 1, 2)], samples=12)
def any_order_any(vc, case):
    """images of any size: images and draws do not depend on the order in which types are asked for"""
    fix, which = case
    x, y = [(['1p', '2m', '2p_psf'], ['2p_psf', '2m', '1p']), (['2p', '1m', '1p'], ['1p', '2p', '1m']), (['noshear', '1m'], ['1m', '1p', 'noshear'])][which]
    no_pixel_list(vc)
    a = AnySource(vc, square=True)
    s = step_of(vc)
    with Stub(vc, any=True) as G:
        nz, seen = any_noise(vc, G, a) if fix else (None, None)
        rs = [MC().get_all_metacal(a.obs, psf='dilate', step=s, fixnoise=bool(fix), rng=vc.rng('g', whole=True), types=list(t)) for t in (x, y)]
        vc.true('types', set(rs[0]) == set(rs[1]) == keys_for(x))
        for t in sorted(rs[0]):
            arrays(vc, 'image', rs[0][t].image, rs[1][t].image, scale=1)
            arrays(vc, 'weight', rs[0][t].weight, rs[1][t].weight, scale=1)
            arrays(vc, 'psf', rs[0][t].psf.image, rs[1][t].psf.image, scale=1)
    a.untouched()
    vc.cover('end')


def any_noise(vc, G, a):
    """contract of simulate_obs without a mixture (C27): the observation with a noise image drawn for its weight map"""
    from ngmix import simobs
    nz = vc.symarr('noise', a.shape, {None: {}})
    seen = []

    def simulate_obs(gmix, obs, add_noise=True, rng=None, add_all=True, noise_factor=None, use_raw_weight=True, convolve_psf=True):
        if gmix is not None or not add_noise or noise_factor is not None or not add_all or rng is None:
            vc.true('noise everywhere, from the generator, as the weight map says', False)
        r = obs.copy()
        arrays(vc, 'noise for the weight map of the input', obs.weight, a.w, tol=0)
        seen.append(1)
        r.image = nz.copy()
        return r
    vc.patch(simobs, 'simulate_obs', simulate_obs)
    return nz, seen


@unit('C15', cases=[('dilate', u, t) for u in (0, 1) for t in (0, 1, 2, ('1p',), ('2m_psf', '2m', 'noshear'))], samples=12)
def noise_added_any(vc, case):
    """images of any size: the correction noise goes through the same operations, turned by a quarter and back"""
    psf, use, types = case
    third, types = (types, None) if isinstance(types, int) else (0, types)
    no_pixel_list(vc)
    a = AnySource(vc, square=True, noise=bool(use))
    s = step_of(vc)
    rng = None if use else vc.rng('g', whole=True)
    n = a.shape[0]
    with Stub(vc, any=True) as G:
        nz, seen = (a.nz, None) if use else any_noise(vc, G, a)
        r = MC().get_all_metacal(a.obs, psf=psf, step=s, fixnoise=True, rng=rng, use_noise_image=bool(use), types=None if types is None else list(types))
        vc.unpatch()
        if not use and not seen:
            G.unknown('noise made in another way')
        ex = Expect(vc, G, a.before, s, psf)
        exn = Expect(vc, G, a.before, s, psf, image=vc.build(a.shape, lambda i, j: nz[j, n - 1 - i]))
        vc.true('types', set(r) == keys_for(types or ALL))
        i, j = vc.at('i', n), vc.at('j', n)
        vc.counted(vc.sum(n, lambda k: vc.sum(n, lambda l: vc.ite(a.w[k, l] != 0, 1, 0))), n * n, a.w[i, j] != 0)
        for t in sorted(r)[third::3 if types is None else 1]:
            g, p = ex.images(t)
            m = exn.images(t)[0]
            vc.true('image: shape', vc.And(r[t].image.shape[0] == n, r[t].image.shape[1] == n))
            vc.eq('image with noise', r[t].image[i, j], g[i, j] + m[n - 1 - j, i], scale=1)
            y = a.w[i, j]
            if vc.case(y == 0):
                vc.eq('weight of unknown pixels', r[t].weight[i, j], 0.0, tol=0)
            else:
                vc.eq('weight', r[t].weight[i, j], y / 2)
            same_jac(vc, 'image', r[t].jacobian, a.jac)
            arrays(vc, 'psf image', r[t].psf.image, p, scale=1)
            arrays(vc, 'psf weight', r[t].psf.weight, a.before.psf.weight, tol=0)
    a.untouched()
    vc.cover('end')


OPS = [(('1p', 0), ('2m', 0), ('1p', 1), ('1p_psf', 0), ('1p', 0)),
       (('1p_psf', 0), ('1p', 0), ('1p_psf', 0), ('1m', 0), ('1m_psf', 0)),
       (('2p', 1), ('2p_psf', 0), ('2m', 1), ('2p', 0), ('2p_psf', 0))]


@unit('C15', cases=[(i, f) for i in range(len(OPS)) for f in (0, 1, 2, 3, 4, 5)], samples=6, bound='five requests, one failed drawing; images of any size')
def histories(vc, case):
    """any sequence of requests, one of them failing, with earlier results changed by the user"""
    ops, fail = OPS[case[0]], case[1]
    import ngmix
    no_pixel_list(vc)
    a = AnySource(vc)
    o, before = a.obs, a.before
    s = step_of(vc)
    with Stub(vc, [fail], any=True) as G:
        ex = Expect(vc, G, o, s, 'dilate')
        m = MC().MetacalDilatePSF(o)
        for n, (t, un) in enumerate(ops):
            # two sizes of the shear
            ex.step = s if n != 3 else s * 1.125
            g = ex.shear(t)
            sh = ngmix.Shape(g[0] + 0.0, g[1] + 0.0)
            before_fail = G.ndraw
            if t.endswith('_psf'):
                r = vc.call(m.get_obs_psfshear, sh)
            elif un:
                r = vc.call(m.get_obs_galshear, sh, get_unsheared=True)
            else:
                r = vc.call(m.get_obs_galshear, sh)
            if before_fail < fail <= G.ndraw:
                vc.true('the failure is reported', r.name == 'GMixRangeError')
                continue
            if not r.ok:
                raise r.exc
            got = [(t, r.value)] if not un else [(t, r.value[0]), ('noshear', r.value[1])]
            for q, x in got:
                check_type(vc, q, x, ex, before)
            for q, x in got:
                with x.writeable():
                    x.image[:, :] = 5.0
                with x.psf.writeable():
                    x.psf.image[:, :] = 7.0
    a.untouched()
    vc.true('shear needed', vc.call(m.get_obs_galshear, (0.01, 0.0)).name == 'TypeError')
    vc.cover('end')


@unit('C15', cases=[(k, f, p) for k in ('list', 'bands') for f in (0, 1, 2) for p in ('dilate', 'object')], samples=6,
      bound='three observations of 2 x 2 pixels (1 without correction noise) in one list or two bands')
def structure(vc, case):
    """lists and bands keep their structure and order, with drawn (1) and given (2) correction noise"""
    import ngmix
    np = vc.np
    kind, fix, psf = case
    s = step_of(vc)
    m = 2 if fix else 1
    groups = [[source(vc, str(b) + str(i), (m, m), (2, 1), positive=True, noise=fix == 2) for i in range(n)] for b, n in enumerate((2, 1))]
    befores = [[o.copy() for o in x] for x in groups]
    lists = []
    for x in groups:
        l = ngmix.ObsList()
        for o in x:
            l.append(o)
        lists.append(l)
    if kind == 'list':
        arg, groups, befores = lists[0], groups[:1], befores[:1]
    else:
        arg = ngmix.MultiBandObsList()
        for l in lists:
            arg.append(l)
    rng = vc.rng('g')
    types = ['noshear', '2m']
    with Stub(vc) as G:
        p = psf if psf == 'dilate' else G.mod.leaf(('given',))
        r = MC().get_all_metacal(arg, psf=p, step=s, fixnoise=bool(fix), rng=rng, use_noise_image=fix == 2, types=list(types))
        vc.true('types', set(r) == keys_for(types))
        flat = [(b, i) for b in range(len(groups)) for i in range(len(groups[b]))]
        if fix:
            vc.true('draws', len(rng.log) == len(flat) * ((4 if fix == 1 else 0) + (0 if psf == 'dilate' else 4)))
        for t in sorted(r):
            res = r[t]
            if kind == 'list':
                vc.true('a list', type(res) is ngmix.ObsList and len(res) == 2)
                res = [res]
            else:
                vc.true('bands', type(res) is ngmix.MultiBandObsList and [len(x) for x in res] == [2, 1] and all(type(x) is ngmix.ObsList for x in res))
            for k, (b, i) in enumerate(flat):
                bef = befores[b][i]
                ex = Expect(vc, G, groups[b][i], s, psf)
                ex.core = ('given',)
                if fix:
                    nz = bef.noise if fix == 2 else np.array(expected_noise(vc, bef.weight, rng.log[4 * k:4 * k + 4], True, None)).reshape(2, 2)
                    exn = Expect(vc, G, groups[b][i], s, psf, image=turned(vc, nz, 1))
                    exn.core = ex.core
                    im = ex.images(t)[0] + turned(vc, exn.images(t)[0], 3)
                    arrays(vc, 'weight', res[b][i].weight, bef.weight / 2, scale=1)
                else:
                    im = ex.images(t)[0]
                    arrays(vc, 'weight', res[b][i].weight, bef.weight, scale=1)
                arrays(vc, 'image', res[b][i].image, im, scale=1)
    for b in range(len(groups)):
        for x, y in zip(groups[b], befores[b]):
            same_obs(vc, 'input untouched', x, y)
    vc.true('an observation', vc.call(MC().get_all_metacal, 3.0, psf='dilate', fixnoise=False).name == 'ValueError')
    vc.cover('end')


@unit('C15', cases=['dilate', 'gauss', 'object'], prove=False, samples=3)
def with_galsim(vc, kind):
    """the images themselves, and the cache of galsim objects (run-time only)"""
    import random
    import numpy as np
    import galsim
    import ngmix
    M = MC()
    r = random.Random(int(vc.real('seed', gen=lambda r: float(r.randrange(1 << 30)))))
    g = np.random.RandomState(r.randrange(1 << 30))
    s = r.choice([0.01, 0.03])
    n = 15
    wcs = galsim.JacobianWCS(0.26 + r.uniform(-0.01, 0.01), r.uniform(-0.02, 0.02), r.uniform(-0.02, 0.02), 0.26)
    psf = galsim.Moffat(beta=2.5, fwhm=0.9).shear(g1=r.uniform(-0.05, 0.05), g2=r.uniform(-0.05, 0.05))
    obj = galsim.Convolve(psf, galsim.Exponential(half_light_radius=0.5).shear(g1=r.uniform(-0.3, 0.3), g2=r.uniform(-0.3, 0.3)))
    im = obj.drawImage(nx=n, ny=n, wcs=wcs).array.astype(float) + g.normal(size=(n, n)) * 1e-4
    pim = psf.drawImage(nx=n, ny=n, wcs=wcs).array.astype(float)
    jac = ngmix.Jacobian(row=7.0, col=7.0, wcs=wcs)
    o = ngmix.Observation(im, weight=np.zeros((n, n)) + 1e8, jacobian=jac, psf=ngmix.Observation(pim, weight=np.ones((n, n)), jacobian=jac),
                          meta=dict(a=[1, 2]))
    before = o.copy()
    target = galsim.Gaussian(fwhm=1.3)
    arg = target if kind == 'object' else kind
    types = r.sample(ALL if kind == 'dilate' else GAL, 3)
    pix = wcs.toWorld(galsim.Pixel(scale=1))

    def interp(a):
        return galsim.InterpolatedImage(galsim.Image(a.copy(), wcs=wcs), x_interpolant='lanczos15')
    nopsf = galsim.Convolve(interp(im), galsim.Deconvolve(interp(pim)))
    if kind == 'dilate':
        core = galsim.Convolve(interp(pim), galsim.Deconvolve(pix)).dilate(1 + 2 * s)
    elif kind == 'object':
        core = target.dilate(1 + 2 * s)
    res = []
    try:
        for cache in (False, True, True):
            (M.metacal.turn_on_galsim_caching if cache else M.metacal.turn_off_galsim_caching)()
            res.append(M.get_all_metacal(o, psf=arg, step=s, fixnoise=False, types=list(types)))
            if cache and len(res) == 2:
                for x in res[1].values():
                    x.keep = x.image.copy(), x.psf.image.copy()
                for x in res[1].values():
                    with x.writeable():
                        x.image[:, :] += 1
                    with x.psf.writeable():
                        x.psf.image[:, :] += 1
    finally:
        M.metacal.turn_off_galsim_caching()
    first = res[0]
    vc.true('types', all(set(x) == keys_for(types) for x in res))
    for t in first:
        a, b, c = res[0][t], res[1][t], res[2][t]
        vc.true('cache on and off', np.array_equal(a.image, b.keep[0]) and np.array_equal(a.psf.image, b.keep[1]))
        vc.true('cache warm', np.array_equal(a.image, c.image) and np.array_equal(a.psf.image, c.psf.image))
        if kind == 'gauss':
            continue
        sh = (0, 0) if t == 'noshear' else tuple(s * x for x in SIGN[t[:2]])
        tg = core
        if t.endswith('_psf'):
            tg = tg.shear(g1=sh[0], g2=sh[1])
            sh = (0, 0)
        if kind == 'dilate':
            tg = galsim.Convolve(tg, pix)
        want = galsim.Convolve(nopsf.shear(g1=sh[0], g2=sh[1]) if sh != (0, 0) else nopsf, tg).drawImage(
            nx=n, ny=n, wcs=wcs, dtype=float, method='no_pixel').array
        vc.true('image', np.allclose(a.image, want, rtol=0, atol=1e-5 * np.abs(want).max()))
        pw = tg.drawImage(nx=n, ny=n, wcs=wcs, dtype=float, method='no_pixel').array
        vc.true('psf', np.allclose(a.psf.image, pw, rtol=0, atol=1e-5 * np.abs(pw).max()))
    if kind == 'gauss':
        ts = [t for t in first]
        vc.true('one target', all(np.array_equal(first[t].psf.image, first[ts[0]].psf.image) for t in ts))
    same_obs(vc, 'input untouched', o, before)
