"""Models of a fit: parameters, mixtures, residuals, likelihood, statistics."""
from pyvc.unit import unit
from harness.gmix_eval import nb


def R():
    import ngmix.fitting.results as m
    return m


def val(vc):
    """call-site contract of the evaluation of a pixel (decided by C06): a number that depends on the component and the pixel"""
    if vc.symbolic:
        M = nb()
        f = vc.ufun('value', lambda p, r, c, a, b, d, v, u, s: p * (v - r) + a * u - c * b + 0.1 * d * s)
        vc.patch(M, 'gmix_eval_pixel_fast',
                 lambda g, x: sum(f(g[k]['p'], g[k]['row'], g[k]['col'], g[k]['irr'], g[k]['irc'], g[k]['icc'], x['v'], x['u'], x['area'])
                                  for k in range(g.size)))
        vc.patch(M, 'gmix_set_norms', lambda g: None)


def psf_gmix(vc, tag):
    import ngmix
    return ngmix.GMix(pars=[vc.real('pp' + tag, pos=True), 0.1, vc.real('pr' + tag, gen=lambda r: r.uniform(-0.2, 0.2)),
                            vc.real('pa' + tag, pos=True), vc.real('pb' + tag, gen=lambda r: r.uniform(-0.1, 0.1)), 1.0])


def obs_of(vc, tag, psf, shape=(1, 2)):
    import ngmix
    im, w = vc.mat('im' + tag, shape), vc.mat('w' + tag, shape, pos=True)
    p = None
    if psf:
        p = ngmix.Observation(vc.np.ones((1, 1)), jacobian=ngmix.UnitJacobian(row=0, col=0), gmix=psf_gmix(vc, tag))
    return ngmix.Observation(im, weight=w, jacobian=ngmix.DiagonalJacobian(row=0.3, col=0.4, scale=0.5), psf=p)


def observations(vc, pattern, psf):
    """one entry per band: the number of epochs"""
    import ngmix
    mb = ngmix.MultiBandObsList()
    for b, ne in enumerate(pattern):
        ol = ngmix.ObsList()
        for e in range(ne):
            ol.append(obs_of(vc, '%d%d' % (b, e), psf if not callable(psf) else psf(b, e)))
        mb.append(ol)
    return mb


class Prior(object):
    """stand-in for a joint prior (C18 decides those)"""

    def __init__(self, vc, n, hard=None):
        self.c = [0.25 * k for k in range(n)]
        self.hard = hard
        self.bounds = [(None, None)] * n

    def res(self, pars):
        if self.hard is not None and pars[0] > self.hard:
            from ngmix.gexceptions import GMixRangeError
            raise GMixRangeError('outside')
        return [(pars[i] - c) * (i + 1) for i, c in enumerate(self.c)]

    def get_lnprob_scalar(self, pars):
        return -0.5 * sum(r * r for r in self.res(pars))

    def fill_fdiff(self, pars, fdiff):
        for i, r in enumerate(self.res(pars)):
            fdiff[i] = r
        return len(self.c)


def band_pars(model, pars, b):
    n = {'bd': 7, 'bdf': 6}.get(model, 5)
    return [pars[i] for i in range(n)] + [pars[n + b]]


def some_pars(vc, tag, model, nband, inside=True):
    n = {'bd': 7, 'bdf': 6}.get(model, 5)
    p = vc.np.zeros(n + nband)
    for i in range(n + nband):
        if i in (2, 3):
            p[i] = vc.real('%sg%d' % (tag, i), gen=lambda r: r.uniform(-0.6, 0.6))
        elif i == 4:
            p[i] = vc.real(tag + 'T', pos=True, gen=lambda r: r.uniform(0.5, 3))
        elif i == 5 and n == 6:
            p[i] = vc.real(tag + 'f', lo=0.0, hi=1.0)
        else:
            p[i] = vc.real('%s%d' % (tag, i), gen=lambda r: r.gauss(0.5, 1))
    if inside:
        vc.assume(p[2] * p[2] + p[3] * p[3] < 0.99)
    return p


def mixture(model, bp, o):
    """a fresh mixture"""
    import ngmix
    g = ngmix.GMixModel(bp, model)
    return g.convolve(o.psf.gmix) if o.has_psf() else g


def same(vc, nm, a, b):
    d, e = a.get_data(), b.get_data()
    vc.true(nm + ': number of components', d.size == e.size)
    for k in range(d.size):
        for f in ('p', 'row', 'col', 'irr', 'irc', 'icc', 'det'):
            vc.eq(nm + ': ' + f, d[f][k], e[f][k], scale=1)


PATTERNS = [((1,), 0, 0), ((2,), 1, 1), ((1, 1), 1, 0), ((1, 2), 0, 1), ((1, 1, 1), 1, 1)]


@unit('C25', cases=PATTERNS, samples=40, budget=150, cost=3,
      bound='up to three bands, two epochs per band, two pixels per epoch, one gaussian (any number of bands and epochs in many_epochs)')
def evaluate(vc, case):
    """likelihood and residuals at any parameters, after any other evaluation, are those of freshly made mixtures"""
    import ngmix
    pat, psf, pri = case
    val(vc)
    mb = observations(vc, pat, psf)
    nband = len(pat)
    arg = mb if nband > 1 else (mb[0] if pat[0] > 1 else mb[0][0])
    prior = Prior(vc, 4 + nband) if pri else None
    guess, pars = some_pars(vc, 'q', 'gauss', nband), some_pars(vc, 'x', 'gauss', nband)
    g0, p0 = guess.copy(), pars.copy()
    m = R().FitModel(obs=arg, model='gauss', guess=guess, prior=prior)
    vc.true('number of parameters', m.npars == 5 + nband)
    tot = sum(2 * e for e in pat)
    npri = (4 + nband) if pri else 0
    vc.true('sizes', m.totpix == tot and m.n_prior_pars == npri and m.fdiff_size == tot + npri and m.nband == nband and m.nimage == sum(pat))
    bad = pars.copy()
    bad[2] = 1.25
    for step, p in enumerate((pars, bad, guess, pars)):
        if step == 1:
            check_penalty(vc, m, p, tot + npri)
            continue
        check_at(vc, m, p, mb, prior, 'gauss')
    # one array, changed in place between evaluations
    buf = guess.copy()
    first = m.calc_lnprob(buf)
    buf[:] = pars
    check_at(vc, m, buf, mb, prior, 'gauss')
    buf[:] = guess
    vc.eq('log probability of an array changed in place', m.calc_lnprob(buf), first, scale=1)
    vc.eq('guess kept', guess, g0, tol=0)
    vc.eq('parameters kept', pars, p0, tol=0)
    vc.cover('end')


def check_penalty(vc, m, p, n):
    r = vc.call(m.calc_lnprob, p)
    vc.true('likelihood outside: no error', r.ok)
    vc.true('log probability outside', r.value == float('-inf'))
    d = m.calc_lnprob(p, more=True)
    vc.true('statistics outside', d['lnprob'] == float('-inf') and d['s2n_numer'] == 0 and d['s2n_denom'] == 9999.0e47 and d['npix'] == 0)
    r = vc.call(m.calc_fdiff, p)
    vc.true('residuals outside: no error', r.ok)
    vc.true('number of residuals', r.value.size == n)
    for k in range(n):
        vc.true('residual outside', r.value[k] == float('-inf'))


def check_at(vc, m, p, mb, prior, model):
    L = num = den = 0.0
    res = [] if prior is None else prior.res(p)
    lp = 0.0 if prior is None else prior.get_lnprob_scalar(p)
    npix = 0
    fd = m.calc_fdiff(p)
    i = len(res)
    vc.true('number of residuals', fd.size == i + sum(o.image.size for ol in mb for o in ol))
    for k in range(i):
        vc.eq('prior residual', fd[k], res[k], scale=1)
    m2 = m._gmix_all
    vc.true('bands', len(m2) == len(mb))
    for b, ol in enumerate(mb):
        vc.true('epochs', len(m2[b]) == len(ol))
        for e, o in enumerate(ol):
            g = mixture(model, band_pars(model, p, b), o)
            same(vc, 'mixture', m2[b][e], g)
            d = g.get_loglike(o, more=True)
            L, num, den = L + d['loglike'], num + d['s2n_numer'], den + d['s2n_denom']
            npix += d['npix']
            want = vc.np.zeros(o.image.size)
            g.fill_fdiff(o, want)
            for k in range(o.image.size):
                vc.eq('residual', fd[i], want[k], scale=1)
                i += 1
    vc.eq('log probability', m.calc_lnprob(p), L + lp, scale=1)
    d = m.calc_lnprob(p, more=True)
    vc.true('names', set(d) == {'lnprob', 's2n_numer', 's2n_denom', 'npix'})
    vc.eq('log probability', d['lnprob'], L + lp, scale=1)
    vc.eq('minus half the squared residuals', d['lnprob'], -0.5 * sum(fd[k] * fd[k] for k in range(fd.size)), scale=1)
    vc.eq('numerator', d['s2n_numer'], num, scale=1)
    vc.eq('denominator', d['s2n_denom'], den, scale=1)
    vc.true('number of pixels', d['npix'] == npix)


@unit('C25', cases=['exp', 'dev', 'turb', 'bdf'], samples=20, budget=150, cost=3, bound='two bands (one for bdf), one epoch, two pixels')
def models(vc, model):
    """every model"""
    val(vc)
    mb = observations(vc, (1,) if model == 'bdf' else (1, 1), 0)
    guess, pars = some_pars(vc, 'q', model, len(mb)), some_pars(vc, 'x', model, len(mb))
    m = R().FitModel(obs=mb, model=model, guess=guess)
    check_at(vc, m, pars, mb, None, model)
    vc.cover('end')


@unit('C25', cases=[0, 1], samples=20)
def outside(vc, how):
    """a prior that refuses, a mixture that cannot be made or evaluated: the penalty; a bad guess is an error"""
    import ngmix
    M = R()
    mb = observations(vc, (1,), how)
    prior = Prior(vc, 5, hard=2.0)
    guess, pars = some_pars(vc, 'q', 'gauss', 1), some_pars(vc, 'x', 'gauss', 1)
    vc.assume(guess[0] < 2)
    m = M.FitModel(obs=mb, model='gauss', guess=guess, prior=prior)
    n = 5 + 2
    for k, v in ((0, 2.5), (2, 1.0), (3, -1.5)):
        bad = pars.copy()
        bad[k] = v
        check_penalty(vc, m, bad, n)
    # no area: refused when evaluated
    if not how:
        bad = pars.copy()
        vc.assume(bad[0] < 2)
        bad[4] = 0.0
        check_penalty(vc, m, bad, n)
    bad = guess.copy()
    bad[3] = 2.0
    r = vc.call(M.FitModel, obs=mb, model='gauss', guess=bad)
    vc.true('bad guess refused', not r.ok and r.name == 'GMixRangeError')
    r = vc.call(M.FitModel, obs=mb, model='gauss', guess=vc.np.zeros(7))
    vc.true('wrong number refused', not r.ok and r.name == 'AssertionError')
    vc.cover('end')


def joint(vc, model, nband):
    import ngmix
    N = lambda k: ngmix.priors.Normal(0.1 * k, 1.0, rng=rng)
    rng = vc.rng('prior')
    cen = ngmix.priors.CenPrior(0.0, 0.0, 1.0, 1.0, rng=rng)
    g = ngmix.priors.GPriorBA(0.3, rng=rng)
    F = [N(k) for k in range(nband)] if nband > 1 else N(0)
    J = ngmix.joint_prior
    if model == 'bdf':
        return J.PriorBDFSep(cen, g, N(2), N(3), F)
    if model == 'bd':
        return J.PriorBDSep(cen, g, N(2), N(3), N(4), F)
    return J.PriorSimpleSep(cen, g, N(2), F)


@unit('C25', cases=[(m, b) for m in ('gauss', 'exp', 'dev', 'turb', 'bdf', 'bd') for b in (1, 2, 4)], samples=10, bound='four bands')
def bands(vc, case):
    """the parameters of each band; the number of prior residuals"""
    model, nband = case
    M = R()
    p = some_pars(vc, 'x', model, nband)
    p0 = p.copy()
    for b in range(nband):
        q = M.get_band_pars(model=model, pars=p, band=b)
        vc.eq('band', q, band_pars(model, p, b), tol=0)
        q[0] = 17.0
    vc.eq('parameters kept', p, p0, tol=0)
    n = M.get_lm_n_prior_pars(model=model, nband=nband)
    # the centre takes two residuals, the shape one: one less than the parameters
    vc.true('number of prior residuals', n == p.size - 1)
    fd = vc.np.zeros(n + 3)
    vc.true('filled by the joint prior', joint(vc, model, nband).fill_fdiff(p, fd) == n)
    r = vc.call(M.get_lm_n_prior_pars, model='coellip', nband=nband)
    vc.true('unknown model refused', not r.ok and r.name == 'ValueError')
    vc.cover('end')


@unit('C25', cases=[((1,), 0), ((1, 1), 1)], samples=30, budget=120, cost=2, bound='one or two bands')
def statistics(vc, case):
    """what a successful fit reports"""
    import ngmix
    pat, psf = case
    nband = len(pat)
    val(vc)
    mb = observations(vc, pat, psf)
    M = R()
    pars = some_pars(vc, 'x', 'gauss', nband)
    prior = Prior(vc, 4 + nband)
    m = M.FitModel(obs=mb, model='gauss', guess=some_pars(vc, 'q', 'gauss', nband), prior=prior)
    n = 5 + nband
    cov = vc.np.zeros((n, n))
    for i in range(n):
        for j in range(i + 1):
            cov[i, j] = vc.real('c%d%d' % (i, j), **(dict(pos=True) if i == j else {}))
            cov[j, i] = cov[i, j]
    err = vc.np.sqrt(vc.np.diag(cov))
    res = dict(flags=0, pars=pars.copy(), pars_cov=cov.copy(), pars_err=err, nfev=3)
    m.npars = 1       # keeps the degrees of freedom positive
    m.set_fit_result(res)
    d = m.calc_lnprob(pars, more=True)
    for k in d:
        vc.eq(k, m[k], d[k], scale=1)
    vc.eq('parameters', m['pars'], pars, tol=0)
    npix = 2 * sum(pat)
    vc.true('degrees of freedom', m['dof'] == npix - 1)
    vc.eq('chi squared', m['chi2per'] * (npix - 1), -2 * d['lnprob'], scale=1)
    if vc.case(d['s2n_denom'] > 0):
        vc.eq('signal to noise', m['s2n'] * vc.np.sqrt(d['s2n_denom']), d['s2n_numer'], scale=1)
    else:
        vc.eq('signal to noise', m['s2n'], 0.0)
    vc.eq('signal to noise', m['s2n_w'], m['s2n'])
    vc.eq('shape', m['g'], [pars[2], pars[3]], tol=0)
    vc.eq('shape errors', m['g_err'], [err[2], err[3]])
    for i in range(2):
        for j in range(2):
            vc.eq('shape covariance', m['g_cov'][i, j], cov[2 + i, 2 + j])
    vc.eq('size', m['T'], pars[4], tol=0)
    vc.eq('size error', m['T_err'] * m['T_err'], cov[4, 4])
    if nband == 1:
        vc.eq('flux', m['flux'], pars[5], tol=0)
        vc.eq('flux error', m['flux_err'] * m['flux_err'], cov[5, 5])
    else:
        for b in range(nband):
            vc.eq('flux', m['flux'][b], pars[5 + b], tol=0)
            vc.eq('flux error', m['flux_err'][b] * m['flux_err'][b], cov[5 + b, 5 + b])
            for c in range(nband):
                vc.eq('flux covariance', m['flux_cov'][b, c], cov[5 + b, 5 + c])
    vc.true('model', m['model'] == 'gauss' and m['nfev'] == 3 and m['flags'] == 0)
    for b in range(nband):
        bp = band_pars('gauss', pars, b)
        same(vc, 'mixture', m.get_gmix(band=b), ngmix.GMixModel(bp, 'gauss'))
        same(vc, 'convolved mixture', m.get_convolved_gmix(band=b), mixture('gauss', bp, mb[b][0]))
    vc.cover('end')


@unit('C25', samples=10)
def failed(vc):
    """a flagged fit has no derived numbers"""
    m = R().FitModel(obs=observations(vc, (1,), 0), model='gauss', guess=some_pars(vc, 'q', 'gauss', 1))
    m.set_fit_result(dict(flags=vc.int('flags', 1, 64), pars=vc.np.zeros(6), nfev=-1))
    for k in ('g', 'T', 'flux', 's2n', 'lnprob', 'chi2per'):
        vc.true('no ' + k, k not in m)
    vc.cover('end')


@unit('C25', cases=[(2, 0), (2, 1), (3, 0)], samples=30, budget=120, cost=2, bound='two or three gaussians, two epochs')
def coellip(vc, case):
    """coelliptical gaussians"""
    import ngmix
    ng, psf = case
    val(vc)
    mb = observations(vc, (2,), psf)

    def some(t):
        p = vc.np.zeros(4 + 2 * ng)
        p[0], p[1] = vc.reals(t + '0 ' + t + '1')
        p[2], p[3] = vc.reals('%sg1 %sg2' % (t, t), gen=lambda r: r.uniform(-0.6, 0.6))
        vc.assume(p[2] * p[2] + p[3] * p[3] < 0.99)
        for k in range(ng):
            p[4 + k] = vc.real('%sT%d' % (t, k), pos=True)
            p[4 + ng + k] = vc.real('%sF%d' % (t, k))
        return p
    guess, pars = some('q'), some('x')
    p0 = pars.copy()
    m = R().CoellipFitModel(obs=mb[0], ngauss=ng, guess=guess)
    vc.true('number of parameters', m.npars == 4 + 2 * ng)
    fd = m.calc_fdiff(pars)
    L, i = 0.0, 0
    for e, o in enumerate(mb[0]):
        g = ngmix.gmix.GMixCoellip(pars)
        if psf:
            g = g.convolve(o.psf.gmix)
        same(vc, 'mixture', m._gmix_all[0][e], g)
        L = L + g.get_loglike(o)
        want = vc.np.zeros(2)
        g.fill_fdiff(o, want)
        for k in range(2):
            vc.eq('residual', fd[i], want[k], scale=1)
            i += 1
    vc.true('number of residuals', fd.size == i)
    vc.eq('log likelihood', m.calc_lnprob(pars), L, scale=1)
    m.update(dict(pars=pars))
    same(vc, 'mixture', m.get_gmix(), ngmix.gmix.GMixCoellip(pars))
    bad = pars.copy()
    bad[2] = 1.5
    check_penalty(vc, m, bad, 4)
    vc.eq('again', m.calc_lnprob(pars), L, scale=1)
    vc.eq('parameters kept', pars, p0, tol=0)
    two = observations(vc, (1, 1), 0)
    r = vc.call(R().CoellipFitModel, obs=two, ngauss=ng, guess=guess)
    vc.true('one band only', not r.ok and r.name == 'AssertionError')
    vc.cover('end')


class Gm(object):
    pass


@unit('C25', cases=[0, 1], samples=40, cost=2)
def many_epochs(vc, more):
    """any number of bands, and of epochs in each: the sum of the parts and the prior, once each"""
    M = R()
    nb_ = vc.int('nband', 1, gen=lambda r: r.randrange(1, 4))
    rag = vc.ragged('band')
    prior = vc.real('lnprior')
    P = vc.np.zeros(1)
    log = []

    class G(object):
        def __init__(self, b, e):
            self.b, self.e = b, e

        def get_loglike(self, obs, more=False):
            vc.true('mixture of this epoch', obs.b == self.b)
            vc.true('mixture of this epoch', obs.e == self.e)
            L = rag.arr('L', self.b)[self.e]
            if not more:
                return L
            return dict(loglike=L, s2n_numer=rag.arr('num', self.b)[self.e], s2n_denom=rag.arr('den', self.b)[self.e],
                        npix=rag.arr('npix', self.b)[self.e])
    m = vc.bare(M.FitModel)
    m.nband = nb_
    m.obs = vc.seq(nb_, lambda b: vc.seq(rag.n(b), lambda e: G(b, e)))
    vc.put(m, '_gmix_all', vc.seq(nb_, lambda b: vc.seq(rag.n(b), lambda e: G(b, e))))
    vc.put(m, '_get_priors', lambda pars: prior)
    vc.put(m, '_fill_gmix_all', lambda pars: log.append(pars is P))
    d = m.calc_lnprob(P, more=bool(more))
    vc.true('filled with these parameters', log == [True])
    S = lambda f: vc.sum(nb_, lambda b: vc.sum(rag.n(b), lambda e: rag.arr(f, b)[e]))
    vc.eq('log probability', d['lnprob'] if more else d, S('L') + prior, scale=1)
    if more:
        vc.eq('numerator', d['s2n_numer'], S('num'), scale=1)
        vc.eq('denominator', d['s2n_denom'], S('den'), scale=1)
        vc.eq('pixels', d['npix'], S('npix'), scale=1)
    vc.cover('end')


@unit('C25', cases=[0, 1, 2], samples=20)
def fitters(vc, how):
    """the fitter minimises the residuals of its own model from the guess, with its bounds and settings, and reports that model"""
    import ngmix
    import ngmix.fitting.fitters as F
    val(vc)
    mb = observations(vc, (1,), 1)
    prior = Prior(vc, 5 if how != 2 else 1) if how else None
    pars, guess = some_pars(vc, 'x', 'gauss', 1), some_pars(vc, 'q', 'gauss', 1)
    seen = []
    fl = vc.int('flags', 0, 3)

    def run(func, guess, n_prior_pars, **k):
        seen.append((func, guess, n_prior_pars, k))
        func(guess)
        n = pars.size
        return dict(flags=fl, pars=pars.copy(), pars_cov=vc.np.diag(vc.np.ones(n)), pars_err=vc.np.ones(n))
    vc.patch(F, 'run_leastsq', run)
    fp = dict(maxfev=7, ftol=0.5)
    if how == 2:
        f = F.CoellipFitter(ngauss=1, fit_pars=fp)
        prior = None
    else:
        f = F.Fitter(model='gauss', prior=prior, fit_pars=fp if how else None)
    fp['maxfev'] = 9
    vc.patch(R().FitModel, '_set_npars', lambda self: setattr(self, 'npars', 6))
    r = vc.call(f.go, obs=mb, guess=guess)
    if not r.ok and r.name == 'ZeroDivisionError':
        return
    vc.true('fitted', r.ok)
    m = r.value
    func, g, npp, k = seen[0]
    vc.true('one fit', len(seen) == 1)
    vc.true('from the guess', g is guess)
    vc.true('prior residuals', npp == m.n_prior_pars)
    vc.true('bounds', k.pop('bounds') == (prior.bounds if prior is not None else None))
    vc.true('settings', k == (dict(maxfev=7, ftol=0.5) if how else dict(ngmix.defaults.DEFAULT_LM_PARS)))
    vc.eq('residuals of this model', func(pars), m.calc_fdiff(pars), scale=1)
    vc.eq('parameters', m['pars'], pars, tol=0)
    vc.true('flags', m['flags'] == fl)
    vc.cover('end')
