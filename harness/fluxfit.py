"""Template fluxes."""
from pyvc.unit import unit
from harness.obsdata import some_jacobian
from harness.simulated import same_jac


def R():
    import ngmix.fitting.results as m
    return m


MODES = ['psf', 'psfraw', 'tpsf', 'tpsfraw', 'own', 'town']


def epoch(vc, e, mode, shape, ignore=True, zero=False, free=True):
    """an observation with a psf (or itself) carrying a mixture or a template; returns it and the template values"""
    import ngmix
    t = str(e)
    im, w = vc.mat('im' + t, shape), vc.mat('w' + t, shape, pos=True)
    if zero:
        w[0, 0] = 0.0
    jac = ngmix.DiagonalJacobian(row=0.25, col=0.5 + e, scale=1.0) if not free else ngmix.DiagonalJacobian(row=vc.real('row' + t, gen=lambda r: r.uniform(-0.5, 1.5)), col=vc.real('col' + t, gen=lambda r: r.uniform(-0.5, 1.5)), scale=1.0)
    psf = ngmix.Observation(vc.np.ones((1, 1)), jacobian=ngmix.UnitJacobian(row=0, col=0))
    tem = None
    if mode in ('psf', 'psfraw', 'own'):
        gm = ngmix.GMix(pars=[vc.real('p' + t, pos=True), vc.real('gr' + t, gen=lambda r: r.uniform(-0.3, 0.3)) if free else 0.25, 0.0, 1.0, 0.0, 1.0])
    if mode in ('psf', 'psfraw'):
        psf.set_gmix(gm)
    elif mode.startswith('t'):
        tem = vc.mat('t' + t, shape)
        if mode != 'town':
            psf.template = tem
    obs = ngmix.Observation(im, weight=w, jacobian=jac, psf=psf, ignore_zero_weight=ignore)
    if mode == 'own':
        obs.set_gmix(gm)
    if mode == 'town':
        obs.template = tem
    if tem is not None:
        tot = sum(tem.ravel())
        vc.assume(tot * tot > 1e-3)
        T = tem.copy()
        if mode != 'tpsfraw':
            T = T / tot
    else:
        g1 = ngmix.GMix(pars=gm.get_full_pars())
        if mode != 'psfraw':
            g1.set_flux(1.0)
        T = g1.make_image(shape, jacobian=jac)
    return obs, T, tem


@unit('C24', cases=[(m, e) for m in MODES for e in (1, 2)], samples=40, budget=120, cost=3,
      bound='one or two epochs of two pixels (any number in the unit any)')
def whole(vc, case):
    """the weighted least squares amplitude and its standard error"""
    import ngmix
    mode, ne = case
    vc.opaque_fexp()
    shape = (1, 2)
    eps = [epoch(vc, e, mode, shape, free=ne == 1) for e in range(ne)]
    keep = [(o.image.copy(), o.weight.copy(), None if t is None else t.copy()) for o, T, t in eps]
    if ne == 1:
        obs = eps[0][0]
    else:
        obs = ngmix.ObsList()
        for o, T, t in eps:
            obs.append(o)
    kw = {}
    if mode.endswith('raw'):
        kw['normalize_psf'] = False
    if mode in ('own', 'town'):
        kw['do_psf'] = False
    F = ngmix.fitting.PSFFluxFitter(**kw)
    r = F.go(obs)
    xc = sum(T[0, i] * o.image[0, i] * o.weight[0, i] for o, T, t in eps for i in range(2))
    mm = sum(T[0, i] * T[0, i] * o.weight[0, i] for o, T, t in eps for i in range(2))
    np_ = 2 * ne
    if not vc.symbolic:
        vc.assume(mm > 1e-6 or mm == 0)
    if vc.case(mm == 0):
        vc.true('flagged', r['flags'] != 0)
        vc.true('not a number', r['flux'] == -9.999e9 or r['flux'] != r['flux'])
    else:
        vc.true('unflagged', r['flags'] == 0)
        vc.eq('flux', r['flux'] * mm, xc, scale=1)
        f = r['flux']
        ch = sum((f * T[0, i] - o.image[0, i]) * (f * T[0, i] - o.image[0, i]) * o.weight[0, i] for o, T, t in eps for i in range(2))
        vc.eq('error', r['flux_err'] * r['flux_err'] * mm * (np_ - 1), ch, scale=1)
        vc.le('error not negative', 0, r['flux_err'])
        vc.eq('chi squared per degree of freedom', r['chi2per'] * (np_ - 1), ch, scale=1)
        vc.true('degrees of freedom', r['dof'] == np_ - 1)
    vc.true('model', r['model'] == 'template')
    for (o, T, t), (im, w, t0) in zip(eps, keep):
        vc.eq('image kept', o.image, im, tol=0)
        vc.eq('weight kept', o.weight, w, tol=0)
        if t is not None:
            vc.eq('template kept', t, t0, tol=0)
    # again with the same object: the same
    r2 = F.go(obs)
    vc.eq('repeatable', r2['flux'], r['flux'], tol=0)
    vc.cover('end')


@unit('C24', cases=['zerow', 'zerot', 'onepix', 'masked', 'maskedkept'], samples=30, bound='two pixels')
def degenerate(vc, how):
    """no weight, no template, a single pixel: flagged.  pixels without weight do not count as degrees of freedom"""
    import ngmix
    shape = (1, 1) if how == 'onepix' else (1, 3) if how.startswith('masked') else (1, 2)
    obs, T, tem = epoch(vc, 0, 'tpsfraw', shape, ignore=(how not in ('zerow', 'maskedkept')), zero=how.startswith('masked'))
    if how == 'zerow':
        with obs.writeable():
            obs.weight[:] = 0.0
    if how == 'zerot':
        obs.psf.template = tem * 0.0
    r = ngmix.fitting.PSFFluxFitter(normalize_psf=False).go(obs)
    if how in ('zerow', 'zerot'):
        vc.true('flagged', r['flags'] & ngmix.flags.DIV_ZERO != 0)
        vc.true('no number', r['flux'] == -9.999e9 and r['flux_err'] == 9.999e9)
    elif how == 'onepix':
        vc.true('flagged', r['flags'] != 0)
        vc.true('no error', r['flux_err'] == 9.999e9)
    else:
        vc.true('degrees of freedom', r['dof'] == 1)
        mm = sum(T[0, i] * T[0, i] * obs.weight[0, i] for i in (1, 2))
        if not vc.symbolic:
            vc.assume(mm > 1e-6)
        if vc.case(mm > 0):
            vc.eq('flux', r['flux'] * mm, sum(T[0, i] * obs.image[0, i] * obs.weight[0, i] for i in (1, 2)), scale=1)
    if how != 'zerot':
        # a template of no total is refused when it should be normalised
        obs.psf.template = tem * 0.0
        r = ngmix.fitting.PSFFluxFitter(normalize_psf=True).go(obs)
        vc.true('flagged', r['flags'] != 0)
        vc.true('not a number', r['flux'] != r['flux'] or r['flux'] == -9.999e9)
    vc.cover('end')


class Ep(object):
    pass


@unit('C24', samples=40, cost=2)
def many(vc):
    """any number of epochs and of pixels in each"""
    M = R()
    E = vc.int('epochs', 1, gen=lambda r: r.randrange(1, 4))
    rag = vc.ragged('px')
    T = lambda k: rag.arr('t', k)
    D = lambda k: rag.arr('d', k)
    W = lambda k: rag.arr('w', k, gen=lambda r: r.choice([0.0, 1.0, r.uniform(0.1, 2)]), lo=0.0)
    tot = vc.int('totpix', 2, gen=lambda r: r.randrange(2, 9))

    def ob(k):
        o = Ep()
        o.image, o.weight = D(k), W(k)
        return o
    m = vc.bare(M.PSFFluxFitModel)
    m.npars = 1
    m.totpix = tot
    m.obs = vc.seq(E, ob)
    S = lambda f: vc.sum(E, lambda k: vc.sum(rag.n(k), lambda i: f(k, i)))
    # the model of an epoch at a flux is the flux times the template (decided by whole)
    vc.put(m, '_get_model', lambda iobs, flux=None: T(iobs) if flux is None else T(iobs) * flux)
    m.go()
    t, d, w = (lambda k, i: T(k)[i]), (lambda k, i: D(k)[i]), (lambda k, i: W(k)[i])
    mm = S(lambda k, i: t(k, i) * t(k, i) * w(k, i))
    np_ = S(lambda k, i: vc.ite(w(k, i) > 0, 1, 0))
    vc.true('effective number of pixels', m.get_effective_npix() == np_)
    if not vc.symbolic:
        vc.assume(mm > 1e-6 or mm == 0)
    if vc.case(mm == 0):
        vc.true('flagged', m['flags'] & 1 != 0 or m['flags'] != 0)
        vc.true('no number', m['flux'] == -9.999e9 and m['flux_err'] == 9.999e9)
    else:
        f = m['flux']
        vc.eq('flux', f * mm, S(lambda k, i: t(k, i) * d(k, i) * w(k, i)), scale=1)
        ch = S(lambda k, i: (t(k, i) * f - d(k, i)) * (t(k, i) * f - d(k, i)) * w(k, i))
        vc.eq('error', m['flux_err'] * m['flux_err'] * mm * (tot - 1), ch, scale=1)
        vc.le('error not negative', 0, m['flux_err'])
        vc.true('unflagged', m['flags'] == 0)
        if vc.case(np_ > 1):
            vc.eq('chi squared per degree of freedom', m['chi2per'] * (np_ - 1), ch, scale=1)
    vc.cover('end')


@unit('C24', samples=40)
def template_at(vc):
    """the model of an epoch: the template, or the template scaled to the flux, for any number of pixels; the stored template is kept"""
    M = R()
    E = vc.int('epochs', 1, gen=lambda r: r.randrange(1, 4))
    rag = vc.ragged('px')
    k = vc.at('k', E)
    store = rag.arr('t', k)
    keep = store.copy()
    tot = store.sum()
    m = vc.bare(M.PSFFluxFitModel)
    m.use_template = True
    m.template_list = vc.seq(E, lambda j: store)
    m.norm_list = vc.seq(E, lambda j: tot)
    f = vc.real('f')
    i = vc.at('i', rag.n(k))
    if not vc.symbolic:
        vc.assume(abs(tot) > 1e-6)
    vc.assume(vc.Not(tot == 0))
    a = m._get_model(k)
    vc.eq('template', a[i], keep[i], tol=0)
    b = m._get_model(k, flux=f)
    vc.eq('scaled', b[i], f * keep[i], scale=1)
    vc.eq('stored template kept', store[i], keep[i], tol=0)
    vc.cover('end')


@unit('C24', cases=[(m, e) for m in MODES for e in (1, 2)], samples=25, cost=2)
def any_images(vc, case):
    """one or two epochs of images of any size (any number of epochs: many), with templates or mixtures, through the fitter"""
    import ngmix
    import ngmix.observation as OB
    import ngmix.gmix.gmix as GM
    mode, ne = case
    eps = []
    sizes = []
    # contract of the pixel list (C10): some number of usable pixels
    vc.patch(OB, 'make_pixels', lambda image, weight, jacob, ignore_zero_weight=True: sizes[-1])
    for e in range(ne):
        t = str(e)
        nr, nc = vc.int('nr' + t, 1), vc.int('nc' + t, 1)
        sizes.append(vc.symarr('pixels' + t, (vc.int('npix' + t, 2 if ne == 1 else 1),), {None: {}}))
        im = vc.symarr('im' + t, (nr, nc), {None: {}})
        w = vc.symarr('w' + t, (nr, nc), {None: dict(lo=0.0, gen=lambda r: r.choice([0.0, 1.0, r.uniform(0.1, 2)]))})
        b = vc.symarr('t' + t, (nr, nc), {None: {}})
        jac = some_jacobian(vc, t)
        psf = ngmix.Observation(vc.np.ones((1, 1)), jacobian=ngmix.UnitJacobian(row=0, col=0))
        obs = ngmix.Observation(im.copy(), weight=w.copy(), jacobian=jac, psf=psf)
        p = None
        if mode.startswith('t'):
            (obs if mode == 'town' else psf).template = b.copy()
            tot = b.sum()
            if not vc.symbolic:
                vc.assume(abs(tot) > 1e-3)
            vc.assume(vc.Not(tot == 0))
            norm = 1 if mode == 'tpsfraw' else 1 / tot
        else:
            p = vc.real('p' + t, pos=True)
            (obs if mode == 'own' else psf).set_gmix(ngmix.GMix(pars=[p, 0.25 + e, 0.5, 1.0, 0.1, 2.0 + e]))
            norm = p if mode == 'psfraw' else 1
        eps.append((obs, im, w, b, norm, jac, p))

    def make_image(self, dims, jacobian=None, **k):
        # contract (C06): the image is proportional to the flux of the mixture
        pars = self.get_full_pars()
        e = 1 if ne == 2 and jacobian is not None and vc.case(pars[1] == 1.25) else 0
        obs, im, w, b, norm, jac, p = eps[e]
        vc.eq('mixture of the epoch', pars[1:], vc.np.array([0.25 + e, 0.5, 1.0, 0.1, 2.0 + e]), tol=1e-12)
        vc.true('size of the image of the epoch', vc.And(dims[0] == im.shape[0], dims[1] == im.shape[1]))
        same_jac(vc, 'epoch', jacobian, jac)
        f = pars[0]
        return vc.build(im.shape, lambda i, j: f * b[i, j])
    if not mode.startswith('t'):
        vc.patch(GM.GMix, 'make_image', make_image)
    if ne == 1:
        arg = eps[0][0]
    else:
        arg = ngmix.ObsList()
        for x in eps:
            arg.append(x[0])
    kw = {}
    if mode.endswith('raw'):
        kw['normalize_psf'] = False
    if mode in ('own', 'town'):
        kw['do_psf'] = False
    r = ngmix.fitting.PSFFluxFitter(**kw).go(arg)

    def S(f):
        out = 0
        for obs, im, w, b, norm, jac, p in eps:
            out = out + vc.sum(im.shape[0], lambda i: vc.sum(im.shape[1], lambda j: f(norm * b[i, j], im[i, j], w[i, j])))
        return out
    mm = S(lambda t, d, w: t * t * w)
    if not vc.symbolic:
        vc.assume(mm > 1e-6 or mm == 0)
    tot = sum(s.size for s in sizes)
    np_ = S(lambda t, d, w: vc.ite(w > 0, 1, 0))
    if vc.case(mm == 0):
        vc.true('flagged', r['flags'] != 0)
        vc.true('no number', r['flux'] == -9.999e9 and r['flux_err'] == 9.999e9)
    else:
        f = r['flux']
        vc.eq('flux', f * mm, S(lambda t, d, w: t * d * w), scale=1)
        ch = S(lambda t, d, w: (f * t - d) * (f * t - d) * w)
        arg = ch / mm / (tot - 1)
        if vc.symbolic:
            vc.have('chi squared not negative', ch >= 0)
            vc.have('weight of the template', mm > 0)
            vc.have('pixels', tot > 1)
            vc.have('variance not negative', arg >= 0)
        if r['flags'] != 0:
            vc.lt('unflagged', arg, 0)
            return
        vc.eq('error', r['flux_err'] * r['flux_err'] * mm * (tot - 1), ch, scale=1)
        if vc.case(np_ > 1):
            vc.eq('chi squared per degree of freedom', r['chi2per'] * (np_ - 1), ch, scale=1)
    for obs, im, w, b, norm, jac, p in eps:
        i, j = vc.at('i', im.shape[0]), vc.at('j', im.shape[1])
        vc.eq('image kept', obs.image[i, j], im[i, j], tol=0)
        vc.eq('weight kept', obs.weight[i, j], w[i, j], tol=0)
        if mode.startswith('t'):
            vc.eq('template kept', (obs if mode == 'town' else obs.psf).template[i, j], b[i, j], tol=0)
    vc.cover('end')
