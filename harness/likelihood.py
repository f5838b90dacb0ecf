"""Likelihood, residuals and signal to noise of a mixture."""
from pyvc.unit import unit
from harness.gmix_eval import sym_gmix, nb, pix, some_gmix, NORMS


def models(vc, n=None, **over):
    """pixels, and the model value at each (call-site contract of gmix_eval_pixel_fast, decided by C06): some number"""
    M = nb()
    if n is None:
        n = vc.int('n', 0, gen=lambda r: r.randrange(0, 30))
    f = dict(u={}, v={}, area=dict(pos=True), val={},
             ierr=dict(gen=lambda r: r.choice([0.0, r.uniform(0.2, 3), r.uniform(0.2, 3)])), fdiff={})
    px = vc.symarr('px', n, f)
    gm = sym_gmix(vc, 'g', 1)
    if not vc.symbolic:
        vc.assume(gm['det'][0] > 1e-3)
    if not vc.case(gm['norm_set'][0] == 0):
        vc.assume(gm['norm_set'][0] == 1)
    if vc.symbolic:
        from pyvc.sym import mkint
        w = vc.symarr('w', n, {None: {}})

        def ev(g, p):
            vc.true('normalised when evaluated', g['norm_set'][0] == 1)
            return w[mkint(p.idx[0])]
        vc.patch(M, 'gmix_eval_pixel_fast', ev)
        W = lambda k: w[k]
    else:
        W = lambda k: M.gmix_eval_pixel_fast(gm, px[k])
    return M, n, px, gm, W


@unit('C09', samples=80)
def sums(vc):
    """the four numbers of the likelihood kernel, any number of pixels"""
    M, n, px, gm, W = models(vc)
    keep = px.copy()
    g0 = gm.copy()
    r = vc.call(M.get_loglike, gm, px)
    if not r.ok:
        vc.true('range error', r.name == 'GMixRangeError')
        return
    L, num, den, npix = r.value
    e2 = lambda k: px['ierr'][k] * px['ierr'][k]
    vc.eq('log likelihood', L, -0.5 * vc.sum(n, lambda k: (W(k) - px['val'][k]) * (W(k) - px['val'][k]) * e2(k)), scale=1)
    vc.eq('numerator', num, vc.sum(n, lambda k: px['val'][k] * W(k) * e2(k)), scale=1)
    vc.eq('denominator', den, vc.sum(n, lambda k: W(k) * W(k) * e2(k)), scale=1)
    vc.true('number of pixels', npix == n)
    r = vc.call(M.get_model_s2n_sum, g0.copy(), px)
    vc.true('evaluated', r.ok)
    vc.eq('signal to noise sum is the denominator', r.value, den, scale=1)
    if vc.case(n > 0):
        k = vc.at('k', n)
        for f in ('u', 'v', 'area', 'val', 'ierr'):
            vc.eq('pixels unchanged', px[f][k], keep[f][k])
    for f in ('p', 'row', 'col', 'irr', 'irc', 'icc', 'det'):
        vc.eq('mixture unchanged', gm[f][0], g0[f][0])
    vc.cover('end')


@unit('C09', samples=80)
def residuals(vc):
    """each residual goes in its own place; nothing else is touched; half their squared sum is minus the log likelihood"""
    M, n, px, gm, W = models(vc)
    start = vc.int('start', 0, gen=lambda r: r.randrange(0, 10))
    extra = vc.int('extra', 0, gen=lambda r: r.randrange(0, 10))
    fd = vc.symarr('fd', start + n + extra, {None: {}})
    keep = fd.copy()
    r = vc.call(M.fill_fdiff, gm, px, fd, start)
    if not r.ok:
        vc.true('range error', r.name == 'GMixRangeError')
        return
    if vc.case(n > 0):
        k = vc.at('k', n)
        vc.eq('residual', fd[start + k], (W(k) - px['val'][k]) * px['ierr'][k], scale=1)
    if vc.case(start > 0):
        j = vc.at('j', start)
        vc.eq('before the slice unchanged', fd[j], keep[j], tol=0)
    if vc.case(extra > 0):
        m = vc.at('m', extra)
        vc.eq('after the slice unchanged', fd[start + n + m], keep[start + n + m], tol=0)
    r = vc.call(M.get_loglike, gm, px)
    vc.true('evaluated', r.ok)
    vc.eq('half the squared residuals', r.value[0],
          -0.5 * vc.sum(n, lambda k: fd[start + k] * fd[start + k]), scale=1)
    vc.cover('end')


def obs_of(vc, n, zero):
    import ngmix
    im = vc.mat('im', (1, n))
    w = vc.np.ones((1, n))
    for i in range(n):
        w[0, i] = vc.real('w%d' % i, pos=True)
    if zero:
        w[0, n - 1] = 0.0
    return ngmix.Observation(im, weight=w, jacobian=ngmix.DiagonalJacobian(row=0.0, col=0.5, scale=vc.real('scale', pos=True)),
                             ignore_zero_weight=zero != 2)


@unit('C09', cases=[(2, 0), (3, 1), (3, 2)], samples=40, bound='3 pixels (the kernels are proved for any number)')
def methods(vc, case):
    """the methods of a mixture pass on the sums over the pixels of the observation"""
    import ngmix
    n, zero = case
    M = nb()
    obs = obs_of(vc, n, zero)
    gm = some_gmix(vc, 1)
    if vc.symbolic:
        f = vc.ufun('value', lambda v, u, a: v + 2 * u)
        vc.patch(M, 'gmix_eval_pixel_fast', lambda g, p: f(p['v'], p['u'], p['area']))
    px = obs.pixels
    m = px.size
    vc.true('pixels used', m == (n - 1 if zero == 1 else n))
    L = num = den = 0.0
    res = []
    gm.set_norms()
    for k in range(m):
        mod = M.gmix_eval_pixel_fast(gm.get_data(), px[k])
        v, e = px[k]['val'], px[k]['ierr']
        res.append((mod - v) * e)
        L = L - 0.5 * (mod - v) * (mod - v) * e * e
        num = num + mod * v * e * e
        den = den + mod * mod * e * e
    vc.eq('log likelihood', gm.get_loglike(obs), L, scale=1)
    d = gm.get_loglike(obs, more=True)
    vc.true('names', set(d) == {'loglike', 's2n_numer', 's2n_denom', 'npix'})
    vc.eq('log likelihood', d['loglike'], L, scale=1)
    vc.eq('numerator', d['s2n_numer'], num, scale=1)
    vc.eq('denominator', d['s2n_denom'], den, scale=1)
    vc.true('number', d['npix'] == m)
    s = gm.get_model_s2n_sum(obs)
    vc.eq('signal to noise sum', s, den, scale=1)
    x = gm.get_model_s2n(obs)
    vc.eq('signal to noise', x * x, den, scale=1)
    vc.le('signal to noise', 0, x)
    for start in (0, 2):
        fd = vc.vec('fd', n + start + 1)
        keep = fd.copy()
        gm.fill_fdiff(obs, fd, start=start)
        for k in range(m):
            vc.eq('residual', fd[start + k], res[k], scale=1)
        for k in list(range(start)) + list(range(start + m, n + start + 1)):
            vc.eq('elsewhere unchanged', fd[k], keep[k], tol=0)
    # too short: refused and not written
    for size, start in ((n - 1, 0), (n, 1), (n + 1, 2)):
        fd = vc.vec('sh', size)
        keep = fd.copy()
        r = vc.call(gm.fill_fdiff, obs, fd, start=start)
        vc.true('refused', not r.ok and r.name == 'ValueError')
        vc.eq('unchanged', fd, keep, tol=0)
    vc.cover('end')
