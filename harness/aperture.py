"""Fluxes through a gaussian aperture."""
import inspect
from pyvc.unit import unit
from harness.gmix_eval import sym_gmix
from harness.gmix_models import wrap


def GA():
    import ngmix.gaussap as m
    return m


LOW = 1.0e-200
# between the half maxima of a gaussian of unit width
FWHM = 2.3548200450309493


def through(vc, d, k, s2):
    """integral over the plane of component k times exp(-r^2/(2 s2))"""
    np = vc.np
    return d['p'][k] * s2 / np.sqrt((d['irr'][k] + s2) * (d['icc'][k] + s2) - d['irc'][k] * d['irc'][k])


def aperture(vc, how):
    """(keywords, variance of the aperture)"""
    x = vc.real('aper', pos=True)
    return {how: dict(T=2 * x * x, sigma=x, fwhm=FWHM * x)[how]}, x * x


def shape(vc, i):
    """entries of any positive definite matrix (by its Cholesky factor)"""
    x, z = vc.real('x%d' % i, pos=True), vc.real('z%d' % i, pos=True)
    y = vc.real('y%d' % i, gen=lambda r: r.choice([0.0, r.uniform(-0.5, 0.5)]))
    vc.assume(x * x * (z * z) > LOW)
    return x * x, x * y, y * y + z * z


@unit('C29', cases=[(n, h) for n in (1, 2, 3) for h in ('T', 'sigma', 'fwhm')], samples=60, bound='1-3 components (any number: `formula_any`)')
def formula(vc, case):
    """mixtures of general components"""
    import ngmix
    n, how = case
    k, s2 = aperture(vc, how)
    pars = []
    for i in range(n):
        a, c, b = shape(vc, i)
        det = (a + s2) * (b + s2) - c * c
        vc.have('root', s2 <= vc.np.sqrt(det))
        vc.have('factor', s2 / vc.np.sqrt(det) <= 1)
        pars += [vc.real('p%d' % i), vc.real('r%d' % i), vc.real('c%d' % i), a, c, b]
    gm = ngmix.GMix(pars=pars)
    before = gm.get_full_pars().copy()
    f = gm.get_gaussap_flux(**k)
    d = gm.get_data()
    vc.eq('flux', f, sum(through(vc, d, i, s2) for i in range(n)), scale=sum(abs(d['p'][i]) for i in range(n)) if not vc.symbolic else None)
    for x, y in zip(gm.get_full_pars(), before):
        vc.eq('mixture untouched', x, y, tol=0)
    vc.cover('end')


def matrices(vc, n, **over):
    """components with any positive definite matrices"""
    s = vc.symarr('s', n, dict(x=dict(pos=True), y=dict(gen=lambda r: r.choice([0.0, r.uniform(-0.5, 0.5)])), z=dict(pos=True)))
    d = sym_gmix(vc, 'g', n,
                 irr=dict(of=lambda k: s['x'][k] * s['x'][k]),
                 irc=dict(of=lambda k: s['x'][k] * s['y'][k]),
                 icc=dict(of=lambda k: s['y'][k] * s['y'][k] + s['z'][k] * s['z'][k]),
                 det=dict(of=lambda k: s['x'][k] * s['x'][k] * (s['z'][k] * s['z'][k])), **over)
    return s, d


def factor(vc, d, k, s2):
    """the part of component k seen through the aperture; all of a component of no size"""
    root = vc.np.sqrt((d['irr'][k] + s2) * (d['icc'][k] + s2) - d['irc'][k] * d['irc'][k])
    f = s2 / root
    return vc.ite(d['det'][k] > LOW, vc.ite(f > 1, 1.0, f), 1.0)


@unit('C29', samples=60)
def formula_any(vc):
    """mixtures of any number of components"""
    n = vc.int('n', 1)
    k, s2 = aperture(vc, 'sigma')
    s, d = matrices(vc, n)
    gm = wrap(vc, d, n)

    j = vc.at('j', n)
    root = vc.np.sqrt((d['irr'][j] + s2) * (d['icc'][j] + s2) - d['irc'][j] * d['irc'][j])
    vc.le('a factor is at most one', s2 / root, 1, tol=1e-12)
    f = gm.get_gaussap_flux(**k)
    vc.eq('flux', f, vc.sum(n, lambda k: d['p'][k] * factor(vc, d, k, s2)), scale=None if vc.symbolic else 10.0)
    vc.cover('end')


@unit('C29', samples=60)
def between_any(vc):
    """a positive mixture of any number of components: at most the total, and nearly all of it for wide apertures"""
    n = vc.int('n', 1)
    k, s2 = aperture(vc, 'sigma')
    s, d = matrices(vc, n, p=dict(pos=True))
    gm = wrap(vc, d, n)
    j = vc.at('j', n)
    np = vc.np
    root = np.sqrt((d['irr'][j] + s2) * (d['icc'][j] + s2) - d['irc'][j] * d['irc'][j])
    half = s2 + (d['irr'][j] + d['icc'][j])
    vc.le('a factor is at most one', s2 / root, 1, tol=1e-12)
    vc.have('sum', root * root <= half * half)
    vc.le('and at least', s2 / half, s2 / root, tol=1e-12)
    f = gm.get_gaussap_flux(**k)
    tot = vc.sum(n, lambda k: d['p'][k])
    lost = vc.sum(n, lambda k: d['p'][k] * (1 - factor(vc, d, k, s2)))
    vc.eq('what is not seen', tot - f, lost, scale=None if vc.symbolic else 10.0)
    vc.le('which is not negative', 0, lost, tol=1e-9)
    vc.le('positive', 0, f, tol=0)
    vc.cover('end')


@unit('C29', cases=[1], samples=100, bound='one component (any number: `between_any`)')
def between(vc, n):
    """a positive mixture: positive, at most the total, and all of it for wide apertures"""
    import ngmix
    k, s2 = aperture(vc, 'sigma')
    pars, low = [], 0
    for i in range(n):
        a, c, b = shape(vc, i)
        det = (a + s2) * (b + s2) - c * c
        root = vc.np.sqrt(det)
        vc.have('root', s2 <= root)
        vc.have('factor', s2 / root <= 1)
        half = s2 + (a + b)
        vc.have('sum', det <= half * half)
        vc.have('root sum', root <= half)
        p = vc.real('p%d' % i, pos=True)
        vc.have('part', p * (s2 / root) <= p)
        vc.have('most', p * (s2 / half) <= p * (s2 / root))
        low = low + p * (s2 / half)
        pars += [p, vc.real('r%d' % i), vc.real('c%d' % i), a, c, b]
    gm = ngmix.GMix(pars=pars)
    f = gm.get_gaussap_flux(**k)
    tot = sum(pars[0::6])
    vc.lt('positive', 0, f)
    vc.le('at most the total', f, tot, tol=1e-12)
    vc.le('nearly all for a wide aperture', low, f, tol=1e-12)
    vc.cover('end')


@unit('C29', samples=30)
def points(vc):
    """a component of no size is seen whole"""
    import ngmix
    k, s2 = aperture(vc, 'sigma')
    a, c, b = shape(vc, 0)
    vc.have('root', s2 <= vc.np.sqrt((a + s2) * (b + s2) - c * c))
    vc.have('factor', s2 / vc.np.sqrt((a + s2) * (b + s2) - c * c) <= 1)
    p, q = vc.reals('p q')
    gm = ngmix.GMix(pars=[p, 0.5, 0.25, 0.0, 0.0, 0.0, q, 0.0, 0.0, a, c, b])
    vc.eq('flux', gm.get_gaussap_flux(**k), p + through(vc, gm.get_data(), 1, s2), scale=10.0)
    vc.true('an aperture is needed', vc.call(gm.get_gaussap_flux).name == 'ValueError')
    vc.cover('end')


NP = dict(gauss=6, exp=6, dev=6, turb=6, cm=6, bdf=7, bd=8)


def band_mixture(vc, model, p, flux, fd, td):
    import ngmix
    T = p[4]
    if vc.case(T < 0.0001):
        T = 0.0001
    q = [p[0], p[1], p[2], p[3], T] + list(p[5:NP[model] - 1]) + [flux]
    if model == 'cm':
        return ngmix.gmix.GMixCM(fd, td, q)
    return ngmix.GMixModel(q, model)


@unit('C29', cases=[(m, n, b, k) for m in NP for n, b, k in ((1, 1, 0), (1, 2, 0), (1, 3, 0), (2, 2, 0), (2, 1, 1))
                    if n == 1 or m in ('gauss', 'cm', 'bdf', 'bd')], samples=12,
      bound='at most 2 objects and 3 bands (any number: `table` with `one_any`)')
def bands(vc, case):
    """each object and band with its own parameters"""
    import ngmix
    import ngmix.gmix.gmix as GM
    model, nobj, nband, masked = case
    seen = []
    fwhm = vc.real('fwhm', pos=True)
    np = vc.np

    def flux_of(self, fwhm=None, sigma=None, T=None):
        # contract decided by `formula`: some number for this mixture and aperture
        seen.append((self.get_full_pars(), fwhm, sigma, T))
        return 1000.0 + len(seen)
    bad = [vc.case(vc.bool('bad%d' % i)) for i in range(nobj)]
    mask = [vc.case(vc.bool('mask%d' % i)) for i in range(nobj)] if masked else [True] * nobj
    npar = NP[model] - 1 + nband
    rows, fds, tds = [], [], []
    for i in range(nobj):
        g1 = 1.5 if bad[i] else vc.real('g1_%d' % i, gen=lambda r: r.uniform(-0.6, 0.6))
        g2 = vc.real('g2_%d' % i, gen=lambda r: r.uniform(-0.6, 0.6))
        if not bad[i]:
            vc.assume(g1 * g1 + g2 * g2 < 0.98)
        r = [vc.real('row%d' % i), vc.real('col%d' % i), g1, g2, vc.real('T%d' % i, gen=lambda r: r.choice([-1.0, 0.0, 0.3, 4.0]))]
        if model == 'bd':
            r.append(vc.real('logt%d' % i, gen=lambda r: r.uniform(-1, 1)))
        if model in ('bd', 'bdf'):
            r.append(vc.real('fd%d' % i, lo=0.0, hi=1.0))
        r += [vc.real('F%d_%d' % (i, b)) for b in range(nband)]
        rows.append(r)
        fds.append(vc.real('fracdev%d' % i, lo=0.0, hi=1.0))
        tds.append(vc.real('TdByTe%d' % i, pos=True))
    pars = np.array(rows)
    vc.true('parameters', pars.shape == (nobj, npar))
    old = pars.copy()
    k = {}
    if model == 'cm':
        k = dict(fracdev=np.array(fds), TdByTe=np.array(tds))
    if masked:
        import numpy
        k['mask'] = numpy.array(mask)
    vc.patch(GM.GMix, 'get_gaussap_flux', flux_of)
    flux, flags = GA().get_gaussap_flux(pars, model, fwhm, verbose=False, **k)
    vc.unpatch()
    vc.true('one number for each object and band', tuple(flux.shape) == (nobj, nband) and tuple(flags.shape) == (nobj, nband))
    n = 0
    for i in range(nobj):
        for b in range(nband):
            if not mask[i]:
                vc.true('not attempted', flags[i, b] == ngmix.flags.NO_ATTEMPT)
                vc.isnan('no number', flux[i, b])
            elif bad[i]:
                vc.true('flagged', flags[i, b] == ngmix.flags.GMIX_RANGE_ERROR)
                vc.isnan('no number', flux[i, b])
            else:
                vc.true('not flagged', flags[i, b] == 0)
                # which of the calls gave this number
                j = [q for q in range(len(seen)) if flux[i, b] == 1001.0 + q]
                vc.true('a flux', len(j) == 1)
                got, f, s, t = seen[j[0]]
                vc.true('aperture', s is None and t is None)
                vc.eq('aperture', f, fwhm)
                want = band_mixture(vc, model, rows[i], rows[i][NP[model] - 1 + b], fds[i], tds[i]).get_full_pars()
                vc.true('components', len(got) == len(want))
                for x, y in zip(got, want):
                    vc.eq('mixture', x, y)
                n += 1
    for x, y in zip(pars.ravel(), old.ravel()):
        vc.eq('parameters untouched', x, y, tol=0)
    vc.cover('end')


@unit('C29', real=False)
def table(vc):
    """any number of objects and bands: each gets what `_do_gap` (decided by `bands`) gives for it; masked ones are not attempted"""
    import ngmix
    m = GA()
    nobj, nband = vc.int('nobj', 1), vc.int('nband', 1)
    mask = vc.symarr('mask', nobj, {None: dict(gen=lambda r: r.choice([0.0, 1.0]))})
    F = vc.symarr('F', (nobj, nband), {None: {}})
    G = vc.symarr('G', (nobj, nband), {None: dict(gen=lambda r: r.choice([0.0, 4.0]))})
    none = vc.real('none')
    pars = vc.symarr('pars', (nobj, 6), {None: {}})
    vc.patch(m, 'DEFAULT_FLUX', none)
    vc.patch(m, '_prepare', lambda pars, model, fwhm, fracdev=None, TdByTe=None, mask=None: (fracdev, TdByTe, pars, mask))
    vc.patch(m, '_get_nband', lambda pars, model: nband)
    sig = inspect.signature(m._do_gap)

    def gap(*a, **k):
        k = sig.bind(*a, **k).arguments
        return F[k['i'], k['band']], G[k['i'], k['band']]
    vc.patch(m, '_do_gap', gap)
    flux, flags = m.get_gaussap_flux(pars, 'gauss', 1.0, mask=mask, verbose=False)
    vc.unpatch()
    i, b = vc.at('i', nobj), vc.at('b', nband)
    vc.true('one number for each object and band', flux.shape[0] == nobj and flux.shape[1] == nband
            and flags.shape[0] == nobj and flags.shape[1] == nband)
    if vc.case(mask[i] != 0):
        vc.eq('flux', flux[i, b], F[i, b], tol=0)
        vc.eq('flag', flags[i, b], G[i, b], tol=0)
        vc.cover('measured')
    else:
        vc.eq('no number', flux[i, b], none, tol=0)
        vc.eq('not attempted', flags[i, b], ngmix.flags.NO_ATTEMPT, tol=0)
        vc.cover('masked')


@unit('C29', cases=list(NP), real=False)
def one_any(vc, model):
    """any object and band of a table with any number of both: the shared parameters of its own row with its own flux"""
    import ngmix
    import ngmix.gmix.gmix as GM
    m = GA()
    nobj, nband = vc.int('nobj', 1), vc.int('nband', 1)
    first = NP[model] - 1
    pars = vc.symarr('pars', (nobj, first + nband), {None: dict(gen=lambda r: 1.5 if r.random() < 0.15 else r.uniform(0.05, 0.65))})
    i, b = vc.at('i', nobj), vc.at('b', nband)
    g1, g2 = pars[i, 2], pars[i, 3]
    bad = vc.case(g1 * g1 + g2 * g2 >= 1)
    if not bad:
        vc.assume(g1 * g1 + g2 * g2 < 0.98)
    else:
        vc.assume(g1 * g1 + g2 * g2 > 1.02)
    fd, td = vc.symarr('fracdev', nobj, {None: dict(lo=0.0, hi=1.0)}), vc.symarr('TdByTe', nobj, {None: dict(pos=True)})
    if model in ('bd', 'bdf'):
        vc.assume(vc.And(pars[i, first - 1] > 0, pars[i, first - 1] < 1))
    fwhm = vc.real('fwhm', pos=True)
    seen = []

    def flux_of(self, fwhm=None, sigma=None, T=None):
        seen.append((self.get_full_pars(), fwhm, sigma, T))
        return 1000.0
    vc.patch(GM.GMix, 'get_gaussap_flux', flux_of)
    none = vc.real('none')
    vc.patch(m, 'DEFAULT_FLUX', none)
    k = dict(weight_fwhm=fwhm, fracdev=fd, TdByTe=td, pars=pars, model=model, i=i, band=b)
    flux, flags = m._do_gap(**k)
    vc.unpatch()
    if bad:
        vc.true('flagged', flags == ngmix.flags.GMIX_RANGE_ERROR)
        vc.eq('no number', flux, none, tol=0)
        vc.cover('bad')
        return
    vc.true('not flagged', flags == 0)
    vc.true('one mixture', len(seen) == 1)
    vc.eq('its flux', flux, 1000.0, tol=0)
    got, f, s, t = seen[0]
    vc.true('aperture', s is None and t is None)
    vc.eq('aperture', f, fwhm)
    row = [pars[i, q] for q in range(first)]
    want = band_mixture(vc, model, row, pars[i, first + b], fd[i], td[i]).get_full_pars()
    vc.true('components', len(got) == len(want))
    for x, y in zip(got, want):
        vc.eq('mixture', x, y)
    vc.cover('end')


@unit('C29', cases=['gauss', 'exp', 'cm', 'bd', 'bdf'], prove=False, samples=40)
def whole(vc, model):
    """the numbers, any table of objects"""
    import random
    import numpy as np
    import ngmix
    r = random.Random(int(vc.real('seed', gen=lambda r: float(r.randrange(1 << 30)))))
    nobj, nband = r.choice([1, 2, 5]), r.choice([1, 2, 3])
    fwhm = r.uniform(0.3, 5)
    s2 = (fwhm / FWHM) ** 2
    pars = np.zeros((nobj, NP[model] - 1 + nband))
    for i in range(nobj):
        pars[i, 0:5] = [r.gauss(0, 1), r.gauss(0, 1), r.uniform(-0.6, 0.6), r.uniform(-0.6, 0.6), r.choice([1e-6, 0.2, 3.0])]
        if r.random() < 0.3:
            pars[i, r.choice([2, 3])] = r.choice([1.0, -2.0])
        pars[i, 5:] = [r.uniform(0.1, 0.9) for _ in range(pars.shape[1] - 5)]
    fd = np.array([r.random() for _ in range(nobj)])
    td = np.array([r.uniform(0.3, 3) for _ in range(nobj)])
    k = dict(fracdev=fd, TdByTe=td) if model == 'cm' else {}
    mask = None
    if r.random() < 0.5:
        mask = np.array([r.random() < 0.7 for _ in range(nobj)])
        k['mask'] = mask
    src = pars[0] if nobj == 1 and model != 'cm' and r.random() < 0.5 else pars
    flux, flags = GA().get_gaussap_flux(src, model, fwhm, verbose=False, **k)
    for i in range(nobj):
        ok = pars[i, 2] ** 2 + pars[i, 3] ** 2 < 1
        for b in range(nband):
            if mask is not None and not mask[i]:
                vc.true('not attempted', flags[i, b] == ngmix.flags.NO_ATTEMPT and np.isnan(flux[i, b]))
            elif not ok:
                vc.true('flagged', flags[i, b] == ngmix.flags.GMIX_RANGE_ERROR and np.isnan(flux[i, b]))
            else:
                d = band_mixture(vc, model, list(pars[i]), pars[i, NP[model] - 1 + b], fd[i], td[i]).get_data()
                vc.true('no flag', flags[i, b] == 0)
                vc.eq('flux', flux[i, b], sum(through(vc, d, j, s2) for j in range(d.size)), tol=1e-9)
    n = nobj + 1
    if model == 'cm':
        for q in ('fracdev', 'TdByTe'):
            k2 = dict(k)
            k2[q] = np.zeros(n) + 0.5
            vc.true('lengths must agree', not vc.call(GA().get_gaussap_flux, pars, model, fwhm, verbose=False, **k2).ok)
    vc.true('lengths must agree', not vc.call(GA().get_gaussap_flux, pars, model, fwhm, verbose=False, **dict(k, mask=np.ones(n, bool))).ok)
