"""Guesses: layout, ranges, nearness to the supplied values, support of the prior."""
from pyvc.unit import unit


def G():
    import ngmix.guessers as m
    return m


class CenPrior(object):
    def __init__(self, rng):
        self.rng = rng


class Prior(object):
    """stand-in for a joint prior (decided by C18) whose support is an arbitrary box; it reports a point outside by raising or by -inf"""

    def __init__(self, vc, n, raises, rng):
        self.vc = vc
        self.n = n
        self.raises = raises
        self.cen_prior = CenPrior(rng)
        self.lo = [vc.real('lo%d' % i, gen=lambda r: r.uniform(-2, 0.4)) for i in range(n)]
        self.hi = [l + vc.real('wd%d' % i, pos=True, gen=lambda r: r.choice([0.2, 1.0, 3.0])) for i, l in enumerate(self.lo)]
        self.k = 0

    def inside(self, p):
        vc = self.vc
        return vc.And(*[vc.And(self.lo[i] <= p[i], p[i] <= self.hi[i]) for i in range(self.n)])

    def one(self, out):
        vc = self.vc
        for i in range(self.n):
            t = vc.real('smp%d_%d' % (self.k, i), gen=lambda r: r.random())
            vc.assume(t >= 0)
            vc.assume(t <= 1)
            x = self.lo[i] + t * (self.hi[i] - self.lo[i])
            if vc.symbolic:
                y = vc.fresh('smp')
                vc.assume(y == x)
                vc.assume(y >= self.lo[i])
                vc.assume(y <= self.hi[i])
                x = y
            else:
                x = min(max(x, self.lo[i]), self.hi[i])
            out[i] = x
        self.k += 1

    def sample(self, n=None):
        np = self.vc.np
        if n is None:
            a = np.zeros(self.n)
            self.one(a)
            return a
        a = np.zeros((n, self.n))
        for j in range(n):
            self.one(a[j])
        return a

    def get_lnprob_scalar(self, pars):
        if self.inside(pars):
            return -1.0
        if self.raises:
            from ngmix.gexceptions import GMixRangeError
            raise GMixRangeError('outside')
        return -self.vc.np.inf


def near(vc, nm, x, c, frac):
    """x = c (1 + r), |r| <= frac (up to rounding of the constants), whatever the sign of c"""
    frac = frac + 1e-9
    lo, hi, pos = c * (1 - frac), c * (1 + frac), c > 0
    vc.true(nm + ' near', vc.implies(pos, vc.And(lo <= x, x <= hi)))
    vc.true(nm + ' near', vc.implies(vc.Not(pos), vc.And(hi <= x, x <= lo)))


def within(vc, nm, x, d):
    d = d * (1 + 1e-9)
    vc.le(nm, -d, x)
    vc.le(nm, x, d)


def rows(vc, g, nrand, npars):
    vc.true('shape of the guess', tuple(g.shape) == ((npars,) if nrand == 1 else (nrand, npars)))
    return [g] if nrand == 1 else [g[j] for j in range(nrand)]


def supplied(vc, nband):
    T = vc.real('T', gen=lambda r: r.choice([0.3, 1.0, 2.0, -0.2]))
    fl = vc.vec('flux', nband, gen=lambda r: r.gauss(1, 2))
    return T, fl


CASES = [(1, 1), (3, 1), (1, 3), (2, 2)]


def centre_and_shape(vc, g):
    for k in (0, 1):
        within(vc, 'centre near zero', g[k], 0.01)
    for k in (2, 3):
        within(vc, 'shape near zero', g[k], 0.02)
    vc.lt('shape inside the unit disk', g[2] * g[2] + g[3] * g[3], 1)


def fluxes_patched(vc, fl, log):
    """call-site contract: the psf fluxes of the observations"""
    vc.patch(G(), '_get_psf_fluxes', lambda rng, obs: (log.append(obs), dict(flags=None, flux=fl.copy(), flux_err=None))[1])


@unit('C26', cases=[(k,) + c for k in ('flux', 'psf', 'r50') for c in CASES], samples=15, bound='at most 3 samples and 3 bands')
def simple(vc, case):
    """TFluxGuesser, TPSFFluxGuesser, R50FluxGuesser"""
    kind, nrand, nband = case
    rng = vc.rng('g')
    T, fl = supplied(vc, nband)
    obs = object()
    log = []
    if kind == 'flux':
        gs = G().TFluxGuesser(rng=rng, T=T, flux=fl)
        g = gs(nrand=nrand)
    elif kind == 'psf':
        fluxes_patched(vc, fl, log)
        gs = G().TPSFFluxGuesser(rng=rng, T=T)
        g = gs(obs, nrand=nrand)
        vc.true('fluxes of the observations given', log == [obs])
    else:
        vc.assume(T >= 0)
        gs = G().R50FluxGuesser(rng=rng, r50=T, flux=fl)
        g = gs(nrand=nrand)
    for p in rows(vc, g, nrand, 5 + nband):
        centre_and_shape(vc, p)
        near(vc, 'size', p[4], T, 0.1)
        if vc.case(T > 0):
            vc.lt('positive size', 0, p[4])
        for b in range(nband):
            near(vc, 'flux', p[5 + b], fl[b], 0.1)
    vc.cover('end')


@unit('C26', cases=CASES, samples=15, bound='at most 3 samples and 3 bands')
def scalar_flux(vc, case):
    """one flux given as a number; a negative radius is refused"""
    nrand, _ = case
    rng = vc.rng('g')
    f = vc.real('f')
    T = vc.real('T', gen=lambda r: r.choice([-1.0, 0.5, 2.0]))
    p = rows(vc, G().TFluxGuesser(rng=rng, T=T, flux=f)(nrand=nrand), nrand, 6)
    for q in p:
        near(vc, 'flux', q[5], f, 0.1)
    r = vc.call(G().R50FluxGuesser, rng=rng, r50=T, flux=f)
    vc.true('negative radius refused', r.ok if vc.case(T >= 0) else r.name == 'GMixRangeError')
    vc.cover('end')


@unit('C26', cases=CASES, samples=15, bound='at most 3 samples and 3 bands')
def spergel(vc, case):
    nrand, nband = case
    rng = vc.rng('g')
    T, fl = supplied(vc, nband)
    vc.assume(T >= 0)
    nu = vc.real('nu', gen=lambda r: r.choice([-3.0, -0.95, 0.5, 3.4, 9.0]))
    gs = G().R50NuFluxGuesser(rng=rng, r50=T, nu=nu, flux=fl)
    c = vc.ite(nu < -0.99, -0.99, vc.ite(nu > 3.5, 3.5, nu))
    for p in rows(vc, gs(nrand=nrand), nrand, 6 + nband):
        centre_and_shape(vc, p)
        near(vc, 'size', p[4], T, 0.1)
        vc.lt('index in range', -0.99, p[5])
        vc.lt('index in range', p[5], 3.5)
        near(vc, 'index', p[5], c, 0.1)
        for b in range(nband):
            near(vc, 'flux', p[6 + b], fl[b], 0.1)
    vc.cover('end')


@unit('C26', cases=[(k, n, r) for k in ('simple', 'bdf', 'bd') for n in (1, 2) for r in (0, 1)], samples=20,
      bound='at most 2 samples and 2 bands')
def fixed(vc, case):
    """a point outside the support of the prior is replaced by one inside, a point inside is kept"""
    kind, n, raises = case
    npars = 4
    prior = Prior(vc, npars, raises, vc.rng('p'))
    g = vc.mat('g', (n, npars), gen=lambda r: r.choice([-0.3, 0.1, 0.3, 5.0]))
    old = g.copy()
    keep = [prior.inside(old[j]) for j in range(n)]
    r = vc.call(G()._fix_guess, g, prior)
    vc.true('fixed', r.ok)
    for j in range(n):
        for i in range(npars):
            vc.le('in the support', prior.lo[i], g[j, i])
            vc.le('in the support', g[j, i], prior.hi[i])
        if vc.case(keep[j]):
            for i in range(npars):
                vc.eq('kept', g[j, i], old[j, i], tol=0)
    vc.cover('end')


@unit('C26', cases=[(n, r) for n in (1, 2) for r in (0, 1)], samples=20, bound='at most 2 samples and 2 bands')
def fixed_T_flux(vc, case):
    """size and fluxes outside the support are replaced, centre and shape stay"""
    n, raises = case
    npars = 6
    prior = Prior(vc, npars, raises, vc.rng('p'))
    g = vc.mat('g', (n, npars), gen=lambda r: r.choice([-0.3, 0.1, 0.3, 5.0]))
    for j in range(n):
        for i in range(4):
            if not vc.symbolic:
                g[j, i] = 0.5 * (prior.lo[i] + prior.hi[i])
            vc.assume(prior.lo[i] <= g[j, i])
            vc.assume(g[j, i] <= prior.hi[i])
    old = g.copy()
    keep = [prior.inside(old[j]) for j in range(n)]
    r = vc.call(G()._fix_guess_TFlux, g, prior)
    vc.true('fixed', r.ok)
    for j in range(n):
        for i in range(4):
            vc.eq('centre and shape kept', g[j, i], old[j, i], tol=0)
        for i in range(4, npars):
            vc.le('in the support', prior.lo[i], g[j, i])
            vc.le('in the support', g[j, i], prior.hi[i])
        if vc.case(keep[j]):
            for i in range(4, npars):
                vc.eq('kept', g[j, i], old[j, i], tol=0)
    vc.cover('end')


KINDS = dict(tflux=5, psf=5, r50=5, nu=6, pars=5, psfprior=5, fluxprior=5, bdfpsf=6, bdf=6, bd=7)
FROM_PRIOR = ('psfprior', 'fluxprior', 'bdfpsf', 'bdf', 'bd')


@unit('C26', cases=[(k,) + c for k in sorted(KINDS) for c in ((1, 1), (2, 2), (1, 3))], samples=15, bound='at most 2 samples and 3 bands')
def guess_and_prior(vc, case):
    """what reaches the prior check, in which slots, and that every guesser with a prior makes that check"""
    kind, nrand, nband = case
    M = G()
    rng = vc.rng('g')
    T, fl = supplied(vc, nband)
    npars = KINDS[kind] + nband
    obs = object()
    log, fixes = [], []
    if kind in ('r50', 'nu'):
        vc.assume(T >= 0)
    fluxes_patched(vc, fl, log)
    fixed_ = vc.mat('fixed', (nrand, npars), gen=lambda r: r.gauss(0, 1))

    def fix(which):
        def f(guess, prior, ntry=4):
            fixes.append((which, guess.copy(), prior))
            guess[:] = fixed_
        return f
    vc.patch(M, '_fix_guess', fix('all'))
    vc.patch(M, '_fix_guess_TFlux', fix('T'))
    prior = Prior(vc, npars, False, rng)
    smp = []
    orig = prior.sample

    def sample(n=None):
        s = orig(n)
        smp.append(s.copy())
        return s
    prior.sample = sample
    if kind == 'tflux':
        g = M.TFluxGuesser(rng=rng, T=T, flux=fl, prior=prior)(nrand=nrand)
    elif kind == 'psf':
        g = M.TPSFFluxGuesser(rng=rng, T=T, prior=prior)(obs, nrand=nrand)
    elif kind == 'r50':
        g = M.R50FluxGuesser(rng=rng, r50=T, flux=fl, prior=prior)(nrand=nrand)
    elif kind == 'nu':
        g = M.R50NuFluxGuesser(rng=rng, r50=T, nu=0.5, flux=fl, prior=prior)(nrand=nrand)
    elif kind == 'pars':
        p = vc.np.zeros(npars)
        for i in range(2, 4):
            p[i] = vc.real('p%d' % i, gen=lambda r: r.uniform(-0.6, 0.6))
        vc.assume(p[2] * p[2] + p[3] * p[3] < 0.64)
        p[4] = T
        p[5:] = fl
        g = M.ParsGuesser(rng=rng, pars=p, prior=prior)(nrand=nrand)
        vc.true('shape', tuple(g.shape) == (nrand, npars))
        g = g if nrand > 1 else g[0]
    elif kind == 'psfprior':
        g = M.TPSFFluxAndPriorGuesser(rng=rng, T=T, prior=prior)(obs, nrand=nrand)
    elif kind == 'fluxprior':
        g = M.TFluxAndPriorGuesser(rng=rng, T=T, flux=fl, prior=prior)(nrand=nrand)
    elif kind == 'bdfpsf':
        g = M.BDFPSFFluxGuesser(T=T, prior=prior)(obs, nrand=nrand)
    elif kind == 'bdf':
        g = M.BDFGuesser(T=T, flux=fl, prior=prior)(nrand=nrand)
    else:
        g = M.BDGuesser(T=T, flux=fl, prior=prior)(nrand=nrand)
    vc.true('checked against the prior once', len(fixes) == 1 and fixes[0][2] is prior)
    which, before, _ = fixes[0]
    vc.true('which check', which == ('T' if kind in ('psfprior', 'fluxprior') else 'all'))
    if kind in ('psf', 'psfprior', 'bdfpsf'):
        vc.true('fluxes of the observations given', log == [obs])
    after = rows(vc, g, nrand, npars)
    vc.true('layout', tuple(before.shape) == (nrand, npars))
    n = KINDS[kind]
    for j in range(nrand):
        for i in range(npars):
            vc.eq('what the check leaves is returned', after[j][i], fixed_[j, i], tol=0)
        near(vc, 'size', before[j, 4], T, 0.1)
        for b in range(nband):
            near(vc, 'flux', before[j, n + b], fl[b], 0.1)
        if kind in FROM_PRIOR:
            for i in range(4):
                vc.eq('centre and shape of the prior', before[j, i], smp[0][j, i], tol=0)
        else:
            vc.lt('shape inside the unit disk', before[j, 2] * before[j, 2] + before[j, 3] * before[j, 3], 1)
        if kind in ('bdf', 'bdfpsf', 'bd'):
            k = 5 if kind != 'bd' else 6
            vc.le('fraction', 0.4, before[j, k])
            vc.le('fraction', before[j, k], 0.6)
        if kind == 'bd':
            vc.eq('size ratio of the prior', before[j, 5], smp[0][j, 5], tol=0)
    vc.cover('end')


def symrows(vc, n, npars, nm, gen):
    """n samples (any number) of npars parameters, each parameter named by its own array"""
    cols = [vc.symarr('%s%d' % (nm, i), (n,), {None: dict(gen=gen)}) for i in range(npars)]
    return vc.build((n, npars), lambda j, i: pick(vc, [c[j] for c in cols], i))


def pick(vc, xs, i):
    r = xs[-1]
    for k in range(len(xs) - 1):
        r = vc.ite(i == k, xs[k], r)
    return r


ANYKINDS = ('tflux', 'psf', 'r50', 'psfprior', 'fluxprior', 'bdfpsf', 'bdf', 'bd')


@unit('C26', cases=[(k, b, p) for k in ANYKINDS for b in (1, 3) for p in ((0, 1) if k not in FROM_PRIOR else (1,))], samples=15)
def any_number(vc, case):
    """any number of samples: ranges and slots of every sample, and the check against the prior"""
    kind, nband, with_prior = case
    M = G()
    rng = vc.rng('g', whole=True)
    T, fl = supplied(vc, nband)
    npars = KINDS[kind] + nband
    n = vc.int('nrand', 2)
    obs = object()
    log, fixes, smp = [], [], []
    if kind == 'r50':
        vc.assume(T >= 0)
    fluxes_patched(vc, fl, log)
    gauss = lambda r: r.gauss(0, 1)
    fixed_ = symrows(vc, n, npars, 'fixed', gauss)
    prior = type('Prior', (), dict(cen_prior=CenPrior(rng)))()

    def sample(k=None):
        vc.true('samples asked for', k == n)
        s = symrows(vc, n, npars, 'smp', gauss)
        smp.append(s.copy())
        return s
    prior.sample = sample

    def fix(which):
        def f(guess, prior, ntry=4):
            fixes.append((which, guess.copy(), prior))
            guess[:] = fixed_
        return f
    vc.patch(M, '_fix_guess', fix('all'))
    vc.patch(M, '_fix_guess_TFlux', fix('T'))
    k = dict(prior=prior) if with_prior else {}
    if kind == 'tflux':
        g = M.TFluxGuesser(rng=rng, T=T, flux=fl, **k)(nrand=n)
    elif kind == 'psf':
        g = M.TPSFFluxGuesser(rng=rng, T=T, **k)(obs, nrand=n)
    elif kind == 'r50':
        g = M.R50FluxGuesser(rng=rng, r50=T, flux=fl, **k)(nrand=n)
    elif kind == 'psfprior':
        g = M.TPSFFluxAndPriorGuesser(rng=rng, T=T, prior=prior)(obs, nrand=n)
    elif kind == 'fluxprior':
        g = M.TFluxAndPriorGuesser(rng=rng, T=T, flux=fl, prior=prior)(nrand=n)
    elif kind == 'bdfpsf':
        g = M.BDFPSFFluxGuesser(T=T, prior=prior)(obs, nrand=n)
    elif kind == 'bdf':
        g = M.BDFGuesser(T=T, flux=fl, prior=prior)(nrand=n)
    else:
        g = M.BDGuesser(T=T, flux=fl, prior=prior)(nrand=n)
    if kind in ('psf', 'psfprior', 'bdfpsf'):
        vc.true('fluxes of the observations given', log == [obs])
    vc.true('layout', vc.And(len(g.shape) == 2, g.shape[0] == n, g.shape[1] == npars))
    j = vc.at('j', n)
    if with_prior:
        vc.true('checked against the prior once', len(fixes) == 1 and fixes[0][2] is prior)
        which, before, _ = fixes[0]
        vc.true('which check', which == ('T' if kind in ('psfprior', 'fluxprior') else 'all'))
        vc.true('layout', vc.And(len(before.shape) == 2, before.shape[0] == n, before.shape[1] == npars))
        for i in range(npars):
            vc.eq('what the check leaves is returned', g[j, i], fixed_[j, i], tol=0)
    else:
        vc.true('no prior, no check', not fixes)
        before = g
    p = [before[j, i] for i in range(npars)]
    near(vc, 'size', p[4], T, 0.1)
    if vc.case(T > 0):
        vc.lt('positive size', 0, p[4])
    m = KINDS[kind]
    for b in range(nband):
        near(vc, 'flux', p[m + b], fl[b], 0.1)
    if kind in FROM_PRIOR:
        for i in range(4):
            vc.eq('centre and shape of the prior', p[i], smp[0][j, i], tol=0)
    else:
        centre_and_shape(vc, p)
    if kind in ('bdf', 'bdfpsf', 'bd'):
        f = p[5 if kind != 'bd' else 6]
        vc.le('fraction', 0.4, f)
        vc.le('fraction', f, 0.6)
    if kind == 'bd':
        vc.eq('size ratio of the prior', p[5], smp[0][j, 5], tol=0)
    vc.cover('end')


@unit('C26', cases=[1, 2], samples=20)
def prior_only(vc, n):
    M = G()
    prior = Prior(vc, 6, False, vc.rng('g'))
    got = []
    prior.sample = lambda k=None: (got.append(k), 'sample')[1]
    vc.true('a sample of the prior', M.PriorGuesser(prior)(nrand=n) == 'sample' and M.PriorGuesser(prior)() == 'sample')
    vc.true('of the size asked for', got == [n, None])
    vc.cover('end')


@unit('C26', cases=[(n, w) for n in (None, 1, 3) for w in (0, 1)], samples=20, bound='at most 3 samples and 2 bands')
def pars(vc, case):
    """guesses around given parameters: sheared shape, other parameters within their widths"""
    n, w = case
    M = G()
    rng = vc.rng('g')
    p = vc.vec('p', 7, gen=lambda r: r.gauss(0.3, 0.8))
    kw = {}
    wd = [0.02, 0.02, 0.1, 0.1, 0.1, 0.1, 0.1]
    if w:
        wd = vc.vec('w', 7, gen=lambda r: r.uniform(0, 0.5))
        for i in range(7):
            vc.assume(wd[i] >= 0)
        kw = dict(widths=wd)
    m = n or 1
    sh = vc.mat('sh', (m, 2))
    seen = []

    def gsg(rng, g1, g2, nrand, width, max=0.99):
        seen.append((rng, g1, g2, nrand, list(width), max))
        return sh
    vc.patch(M, 'get_shape_guess', gsg)
    g = M.ParsGuesser(rng=rng, pars=p, **kw)(nrand=n)
    vc.true('shape', tuple(g.shape) == ((7,) if n is None else (n, 7)))
    vc.true('shapes made once', len(seen) == 1 and seen[0][0] is rng and seen[0][3] == m and seen[0][5] < 1 and len(seen[0][4]) == 2)
    for i in (0, 1):
        vc.eq('shape given', seen[0][1 + i], p[2 + i], tol=0)
        vc.eq('width given', seen[0][4][i], wd[2 + i], tol=0)
    for j, q in enumerate([g] if n is None else [g[j] for j in range(n)]):
        for i in (0, 1):
            within(vc, 'centre', q[i] - p[i], wd[i])
            vc.eq('shape', q[2 + i], sh[j, i], tol=0)
        for i in (4, 5, 6):
            near(vc, 'parameter', q[i], p[i], wd[i])
    vc.cover('end')


@unit('C26', cases=[1, 2], samples=60, bound='at most 2 samples')
def shapes(vc, n):
    """the shape of a guess: the given one (pulled inside the disk) sheared by offsets within the widths, retried until inside"""
    M = G()
    rng = vc.rng('g')
    g1, g2 = vc.real('g1', gen=lambda r: r.uniform(-1.3, 1.3)), vc.real('g2', gen=lambda r: r.uniform(-1.3, 1.3))
    mx = vc.real('max', gen=lambda r: r.uniform(0.1, 0.99))
    vc.assume(mx > 0)
    vc.assume(mx < 1)
    w = vc.vec('w', 2, gen=lambda r: r.uniform(0, 1.4))
    for i in (0, 1):
        vc.assume(w[i] >= 0)
    big = vc.case(g1 * g1 + g2 * g2 > mx * mx)
    if vc.symbolic:
        class Out(object):
            def __init__(self, a, b):
                self.g1, self.g2 = a, b

        class Shape(object):
            """call-site contract of Shape (C01, C02)"""

            def __init__(self, a, b):
                vc.eq('same direction', a * g2, b * g1, scale=1)
                if big:
                    vc.eq('pulled inside', a * a + b * b, mx * mx, scale=1)
                    vc.le('same direction', 0, a * g1)
                    vc.le('same direction', 0, b * g2)
                else:
                    vc.eq('the shape given', a, g1, tol=0)
                    vc.eq('the shape given', b, g2, tol=0)

            def get_sheared(self, a, b):
                within(vc, 'offset', a, w[0])
                within(vc, 'offset', b, w[1])
                x, y = vc.fresh('s1'), vc.fresh('s2')
                if vc.case(x * x + y * y >= 1):
                    from ngmix.gexceptions import GMixRangeError
                    raise GMixRangeError('outside')
                return Out(x, y)
        vc.patch(M, 'Shape', Shape)
    gs = M.get_shape_guess(rng=rng, g1=g1, g2=g2, nrand=n, width=w, max=mx)
    vc.true('layout', tuple(gs.shape) == (n, 2))
    for j in range(n):
        vc.lt('shape inside the unit disk', gs[j, 0] * gs[j, 0] + gs[j, 1] * gs[j, 1], 1)
    vc.cover('end')


@unit('C26', cases=[((1,), (0,)), ((1, 2), (1, 0)), ((1, 1, 1), (0, 1, 2)), ((1, 1), (1, 1))], samples=20, bound='at most 3 bands')
def psf_fluxes(vc, case):
    """one flux per band; a band without a flux gets one near the mean of the others; none at all is an error"""
    import ngmix
    import ngmix.fitting as F
    pattern, kinds = case
    nband = len(pattern)
    mb = ngmix.MultiBandObsList()
    for ne in pattern:
        ol = ngmix.ObsList()
        for _ in range(ne):
            ol.append(ngmix.Observation(vc.np.ones((1, 1)), jacobian=ngmix.UnitJacobian(row=0, col=0)))
        mb.append(ol)
    fl = vc.vec('flux', nband, gen=lambda r: r.gauss(2, 2))
    flags = [0 if k == 0 else vc.int('flag%d' % b, 0, 4) for b, k in enumerate(kinds)]
    val = [vc.np.nan if k == 2 else fl[b] for b, k in enumerate(kinds)]
    seen = []

    class Fitter(object):
        def go(self, obs):
            b = len(seen)
            seen.append(obs)
            return dict(flags=flags[b], flux=val[b], flux_err=1.0)
    vc.patch(F, 'PSFFluxFitter', Fitter)
    r = vc.call(G()._get_psf_fluxes, vc.rng('g'), mb)
    vc.true('each band', len(seen) == nband and all(seen[b] is mb[b] for b in range(nband)))
    good = [b for b in range(nband) if kinds[b] != 2 and vc.case(flags[b] == 0)]
    if not good:
        vc.true('nothing to go on', r.name == 'PSFFluxFailure')
    else:
        vc.true('made', r.ok)
        f = r.value['flux']
        mean = sum(fl[b] for b in good) / len(good)
        for b in range(nband):
            if b in good:
                vc.eq('flux of the band', f[b], fl[b], tol=0)
            else:
                near(vc, 'flux', f[b], mean, 0.1)
    vc.cover('end')


@unit('C26', cases=['TPSFFluxGuesser', 'TPSFFluxAndPriorGuesser', 'BDFPSFFluxGuesser'], samples=10)
def flux_cache(vc, kind):
    """fluxes are those of the observation given, in every history of calls and failures"""
    from ngmix.gexceptions import PSFFluxFailure
    M = G()
    rng = vc.rng('g')
    prior = Prior(vc, 7, False, rng)
    if kind == 'TPSFFluxGuesser':
        gs = M.TPSFFluxGuesser(rng=rng, T=1.0)
    elif kind == 'TPSFFluxAndPriorGuesser':
        gs = M.TPSFFluxAndPriorGuesser(rng=rng, T=1.0, prior=prior)
    else:
        gs = M.BDFPSFFluxGuesser(T=1.0, prior=prior)
    objs = [object(), object(), object()]
    fl = [vc.vec('f%d' % k, 1, gen=lambda r: r.gauss(0, 3)) for k in range(3)]
    bad = [False, True, False]

    def get(rng, obs):
        k = [i for i in range(3) if objs[i] is obs][0]
        if bad[k]:
            raise PSFFluxFailure('none')
        return dict(flags=None, flux=fl[k], flux_err=None)
    vc.patch(M, '_get_psf_fluxes', get)
    for k in (0, 0, 1, 0, 1, 2, 1, 1, 2, 0, 2):
        r = vc.call(gs._get_psf_fluxes, obs=objs[k])
        if bad[k]:
            vc.true('failure reported every time', r.name == 'PSFFluxFailure')
        else:
            vc.true('fluxes', r.ok)
            vc.eq('fluxes of this observation', r.value[0], fl[k][0], tol=0)
    # objects that are gone
    for t in range(20):
        o = object()
        objs[0] = o
        fl[0] = vc.np.zeros(1) + t
        vc.eq('fluxes of a new observation', gs._get_psf_fluxes(obs=o)[0], t, tol=0)
        del o
        objs[0] = None
    vc.cover('end')


def tflux(vc, cls, guesser):
    """call-site contract: the size and flux the guess starts from"""
    T = vc.real('T', pos=True, gen=lambda r: r.uniform(0.1, 3))
    f = vc.real('f', gen=lambda r: r.gauss(1, 2))
    seen = []

    def get(obs):
        seen.append(obs)
        return T, f
    vc.put(guesser, '_get_T_flux', get)
    return T, f, seen


@unit('C26', cases=[1, 2, 3, 4, 5], samples=20)
def full_psf(vc, n):
    """mixture for a psf: positive definite components, sizes and fluxes near the supplied ones"""
    import ngmix
    gs = G().GMixPSFGuesser(rng=vc.rng('g'), ngauss=n)
    T, f, seen = tflux(vc, None, gs)
    obs = object()
    r = vc.call(gs, obs)
    vc.true('made', r.ok)
    vc.true('from the observation', seen == [obs])
    gm = r.value
    vc.true('a mixture', isinstance(gm, ngmix.GMix))
    d = gm.get_data()
    vc.true('number of components', d.size == n)
    tot = 0
    for k in range(n):
        for c in ('row', 'col'):
            within(vc, 'centre', d[c][k], 0.1)
        vc.lt('positive', 0, d['irr'][k])
        vc.lt('positive', 0, d['icc'][k])
        vc.lt('positive definite', d['irc'][k] * d['irc'][k], d['irr'][k] * d['icc'][k])
        lo, hi = {1: (0.899, 1.101), 2: (0.5, 1.9)}.get(n, (0.4, 25))
        vc.le('size', lo * T, d['irr'][k] + d['icc'][k])
        vc.le('size', d['irr'][k] + d['icc'][k], hi * T)
        tot = tot + d['p'][k]
        if vc.case(f > 0):
            vc.lt('sign of the flux', 0, d['p'][k])
    near(vc, 'flux', tot, f, 0.1 if n < 4 else 0.17)
    vc.cover('end')


@unit('C26', cases=[1, 2, 3, 4, 5], samples=20)
def coellip_psf(vc, n):
    """[centre, shape, n sizes, n fluxes]"""
    gs = G().CoellipPSFGuesser(rng=vc.rng('g'), ngauss=n)
    T, f, seen = tflux(vc, None, gs)
    obs = object()
    g = gs(obs)
    vc.true('from the observation', seen == [obs])
    psf_layout(vc, g, n, T, f)


def psf_layout(vc, g, n, T, f):
    vc.true('layout', tuple(g.shape) == (4 + 2 * n,))
    for k in (0, 1):
        within(vc, 'centre', g[k], 0.01)
    for k in (2, 3):
        within(vc, 'shape', g[k], 0.05)
    vc.lt('shape inside the unit disk', g[2] * g[2] + g[3] * g[3], 1)
    tot = 0
    for k in range(n):
        vc.lt('positive size', 0, g[4 + k])
        lo, hi = (0.899, 1.101) if n == 1 else (0.25, 6)
        vc.le('size', lo * T, g[4 + k])
        vc.le('size', g[4 + k], hi * T)
        tot = tot + g[4 + n + k]
        if vc.case(f > 0):
            vc.lt('sign of the flux', 0, g[4 + n + k])
    near(vc, 'flux', tot, f, 0.1)
    vc.cover('end')


@unit('C26', samples=20)
def simple_psf(vc):
    gs = G().SimplePSFGuesser(rng=vc.rng('g'))
    T, f, seen = tflux(vc, None, gs)
    obs = object()
    g = gs(obs)
    vc.true('from the observation', seen == [obs])
    psf_layout(vc, g, 1, T, f)


@unit('C26', cases=[-1, 0, 6], samples=1)
def bad_ngauss(vc, n):
    for c in (G().GMixPSFGuesser, G().CoellipPSFGuesser):
        r = vc.call(c, rng=vc.rng('g'), ngauss=n)
        vc.true('refused', r.name == 'ValueError')
    vc.cover('end')


@unit('C26', cases=[0, 1], samples=40, bound='images of 2 x 3')
def size_and_flux(vc, moms):
    """positive starting size; flux the sum of the image, or the deweighted moments of a Gaussian profile"""
    import ngmix
    import ngmix.gmix.gmix as GM
    from ngmix import moments
    im = vc.mat('im', (2, 3), gen=lambda r: r.gauss(1, 1))
    s = vc.real('scale', pos=True, gen=lambda r: r.uniform(0.2, 2))
    obs = ngmix.Observation(im, jacobian=ngmix.DiagonalJacobian(row=0.3, col=0.4, scale=s))
    gs = G().SimplePSFGuesser(rng=vc.rng('g'), guess_from_moms=bool(moms))
    fl = vc.int('flags', 0, 2)
    Tm, fm = vc.real('Tm', pos=True, gen=lambda r: r.choice([0.001, 0.5, 3.0, 40.0])), vc.real('fm', gen=lambda r: r.gauss(1, 2))
    seen = []

    def wm(self, obs, maxrad):
        seen.append((self.get_T(), self.get_flux(), obs, maxrad))
        return dict(flags=fl, T=Tm, flux=fm)
    vc.patch(GM.GMix, 'get_weighted_moments', wm)
    Tw = moments.fwhm_to_T(3.5 * s)
    if moms:
        vc.assume(vc.Not(Tm == Tw))
    T, f = gs._get_T_flux(obs=obs)
    tot = sum(im[i, j] for i in range(2) for j in range(3))
    vc.lt('positive size', 0, T)
    if moms:
        vc.true('moments of this observation', seen[0][2] is obs and len(seen) == 1)
        vc.eq('weight', seen[0][0], Tw, scale=1)
    small = True
    if moms and vc.case(fl == 0):
        small = vc.case(moments.T_to_fwhm(Tm) < s)
    if small:
        vc.eq('size of the aperture', T, Tw, scale=1)
        vc.eq('flux: sum of the image', f, tot, scale=1)
    elif vc.case(Tm < Tw):
        vc.eq('deweighted size', 1 / T, 1 / Tm - 1 / Tw, scale=1)
        vc.eq('flux of a Gaussian profile', f, fm * vc.np.pi * (Tw + T) / (s * s), scale=1)
    else:
        vc.eq('measured size', T, Tm, scale=1)
        vc.eq('measured flux', f, fm, scale=1)
    vc.cover('end')
