"""State of mixtures: normalisations are never stale, copies are faithful.

Invariant of a mixture: its first component is marked normalised only when the
normalisations of all components are those of the current parameters; the
determinants are those of the covariances.  Every operation preserves it, and
every evaluation starts by establishing current normalisations (call-site
contract of the evaluation kernels), so any sequence of operations evaluates
like a fresh mixture."""
from pyvc.unit import unit
from harness.gmix_eval import sym_gmix, nb, pix
from harness.gmix_models import wrap

CORE = ['p', 'row', 'col', 'irr', 'irc', 'icc']


def current(vc, d, k):
    """the normalisations of component k are those of its parameters"""
    det = d['det'][k]
    return vc.And(d['norm_set'][k] == 1,
                  d['drr'][k] * det == d['irr'][k], d['drc'][k] * det == d['irc'][k], d['dcc'][k] * det == d['icc'][k],
                  d['pnorm'][k] * 2 * vc.np.pi * vc.np.sqrt(det) == d['p'][k])


def check_current(vc, d, k, nm='normalisation', scale=None):
    det = d['det'][k]
    vc.true(nm + ' marked', d['norm_set'][k] == 1)
    vc.eq(nm + ' drr', d['drr'][k] * det, d['irr'][k], scale=scale)
    vc.eq(nm + ' drc', d['drc'][k] * det, d['irc'][k], scale=scale)
    vc.eq(nm + ' dcc', d['dcc'][k] * det, d['icc'][k], scale=scale)
    vc.eq(nm + ' pnorm', d['pnorm'][k] * 2 * vc.np.pi * vc.np.sqrt(det), d['p'][k], scale=scale)


def inv(vc, gm, n, nm=''):
    """the invariant, for an arbitrary component"""
    d = gm.get_data()
    k = vc.at('inv' + nm, n)
    vc.eq(nm + ' determinant', d['det'][k], d['irr'][k] * d['icc'][k] - d['irc'][k] * d['irc'][k], scale=1)
    if vc.case(d['norm_set'][0] == 1):
        check_current(vc, d, k, nm + ' marked means current:')
    else:
        vc.true(nm + ' not marked', d['norm_set'][0] == 0)


def fresh(vc, gm):
    import ngmix
    return ngmix.GMix(pars=gm.get_full_pars())


# ------------------------------------------------------- any number of gaussians

def some_state(vc, n=None, name='g'):
    """a mixture of any number of components in any state that satisfies the invariant"""
    if n is None:
        n = vc.int('n', 1)
    d = sym_gmix(vc, name, n)
    gm = wrap(vc, d, n)
    if not vc.symbolic:
        d['det'] = d['irr'] * d['icc'] - d['irc'] ** 2
        vc.assume((d['det'] > 1e-3).all())
    if vc.case(vc.bool('normalised')):
        r = vc.call(nb().gmix_set_norms, d)
        vc.assume(r.ok)
    else:
        for f in ('drr', 'drc', 'dcc', 'norm', 'pnorm', 'norm_set'):
            pass
        vc.assume(d['norm_set'][0] == 0)
    return gm, d, n


@unit('C07', samples=60)
def set_flux(vc):
    gm, d, n = some_state(vc)
    keep = d.copy()
    P = gm.get_flux()
    vc.assume(P * P > 1e-3)
    f = vc.real('newflux')
    gm.set_flux(f)
    k = vc.at('k', n)
    vc.eq('flux scaled', d['p'][k] * P, keep['p'][k] * f, scale=1)
    vc.true('normalisations to be redone', d['norm_set'][0] == 0)
    vc.true('normalisations to be redone', d['norm_set'][k] == 0)
    for nm in ('row', 'col', 'irr', 'irc', 'icc', 'det'):
        vc.eq(nm + ' unchanged', d[nm][k], keep[nm][k])
    vc.eq('flux', gm.get_flux(), f, scale=1)
    vc.cover('end')


@unit('C07', samples=60)
def set_cen(vc):
    """moving does not touch what the normalisations depend on"""
    gm, d, n = some_state(vc)
    keep = d.copy()
    P = gm.get_flux()
    vc.assume(P * P > 1e-3)
    r0, c0 = gm.get_cen()
    r, c = vc.reals('newrow newcol')
    gm.set_cen(r, c)
    k = vc.at('k', n)
    vc.eq('row shifted', d['row'][k] - keep['row'][k], r - r0, scale=10)
    vc.eq('col shifted', d['col'][k] - keep['col'][k], c - c0, scale=10)
    for nm in ('p', 'irr', 'irc', 'icc', 'det', 'norm_set', 'drr', 'drc', 'dcc', 'norm', 'pnorm'):
        vc.eq(nm + ' unchanged', d[nm][k], keep[nm][k])
    a, b = gm.get_cen()
    vc.eq('centre row', a, r, scale=100)
    vc.eq('centre col', b, c, scale=100)
    vc.cover('end')


@unit('C07', samples=60)
def set_norms(vc):
    """either everything is current or there is an error and nothing is marked"""
    gm, d, n = some_state(vc)
    keep = d.copy()
    k = vc.at('k', n)
    if vc.case(vc.bool('if_needed')):
        r = vc.call(gm.set_norms_if_needed)
    else:
        r = vc.call(gm.set_norms)
    for nm in CORE + ['det']:
        vc.eq(nm + ' unchanged', d[nm][k], keep[nm][k])
    if r.ok:
        check_current(vc, d, k)
    else:
        vc.true('range error', r.name == 'GMixRangeError')
        vc.true('not marked', d['norm_set'][0] == keep['norm_set'][0])
    vc.cover('end')


@unit('C07', samples=60)
def cannot_be_normalised(vc):
    """one bad component anywhere: an error, every time"""
    gm, d, n = some_state(vc)
    vc.assume(d['norm_set'][0] == 0)
    k = vc.at('k', n)
    d['det'][k] = vc.real('baddet', gen=lambda r: r.choice([0.0, -r.random(), -1e-30, 1e-250]))
    vc.assume(d['det'][k] < 1e-200)
    f = gm.set_norms if vc.case(vc.bool('direct')) else gm.set_norms_if_needed
    for i in range(1 if vc.symbolic else 2):
        if True:
            r = vc.call(f)
            vc.true('range error', not r.ok and r.name == 'GMixRangeError')
            vc.true('not marked', d['norm_set'][0] == 0)
    vc.cover('end')


ENTRY = ['get_loglike', 'fill_fdiff', 'get_model_s2n_sum', 'make_image', 'make_image_fast', 'get_weighted_sums',
         'get_weighted_sums_ho', 'render']


def entry(vc, gm, which, obs, fast=0):
    import ngmix.gmix.render_nb as R
    if which == 'get_loglike':
        return gm.get_loglike(obs)
    if which == 'fill_fdiff':
        f = vc.np.zeros(obs.image.size)
        gm.fill_fdiff(obs, f)
        return f
    if which == 'get_model_s2n_sum':
        return gm.get_model_s2n_sum(obs)
    if which == 'make_image':
        return gm.make_image((1, 2))
    if which == 'make_image_fast':
        return gm.make_image((1, 2), fast_exp=True)
    if which == 'render':
        im = vc.np.zeros(obs.pixels.size)
        R.render(gm.get_data(), obs.pixels, im, 0)
        return im
    return gm.get_weighted_sums(obs, maxrad=100.0, with_higher_order=which.endswith('ho'))['sums']


def two_pixels(vc):
    import ngmix
    im = vc.np.zeros((1, 2))
    im[0, 0], im[0, 1] = vc.reals('im0 im1')
    return ngmix.Observation(im, jacobian=ngmix.DiagonalJacobian(row=0.0, col=0.5, scale=vc.real('scale', pos=True)))


@unit('C07', cases=ENTRY, samples=40)
def evaluation_normalises(vc, which):
    """at the moment a pixel is evaluated the normalisations are current, whatever the state before; when they
    cannot be, the range error is raised each time and no pixel is evaluated"""
    import ngmix.gmix.render_nb as R
    M = nb()
    gm, d, n = some_state(vc)
    obs = two_pixels(vc)
    j = vc.at('j', n)
    if vc.case(vc.bool('bad')):
        vc.assume(d['norm_set'][0] == 0)
        d['det'][j] = vc.real('baddet', gen=lambda r: r.choice([0.0, -r.random(), -1e-30]))
        vc.assume(d['det'][j] < 1e-200)
        count = []

        def never(g, p):
            count.append(1)
            return 0.0
        if vc.symbolic:
            for m in (M, R):
                for f in ('gmix_eval_pixel', 'gmix_eval_pixel_fast'):
                    vc.patch(m, f, never)
        for i in range(1 if vc.symbolic else 2):
            r = vc.call(entry, vc, gm, which, obs)
            vc.true('range error', not r.ok and r.name == 'GMixRangeError')
        vc.true('nothing evaluated', not count)
        return
    keep = d.copy()
    if vc.symbolic:
        def evaluate(g, p):
            check_current(vc, g, j, 'at the evaluation:')
            return vc.real('value%d' % len(seen))
        seen = []
        for m in (M, R):
            for f in ('gmix_eval_pixel', 'gmix_eval_pixel_fast'):
                vc.patch(m, f, evaluate)
    r = vc.call(entry, vc, gm, which, obs)
    if not r.ok:
        vc.true('range error', r.name == 'GMixRangeError')
        return
    for nm in CORE + ['det']:
        vc.eq(nm + ' unchanged', d[nm][j], keep[nm][j])
    if not vc.symbolic:
        vc.eq('like a fresh mixture', r.value, entry(vc, fresh(vc, gm), which, obs), scale=1)
    vc.cover('end')


# ----------------------------------------------------- operations on real mixtures

MODELS = ['full1', 'full2', 'gauss', 'turb', 'coellip2', 'cm']


def model_state(vc, kind):
    """a mixture of each class, with components changed in an admissible way"""
    import ngmix
    G = ngmix.gmix
    if kind.startswith('full'):
        n = int(kind[4:])
        gm = ngmix.GMix(ngauss=n)
    elif kind == 'coellip2':
        gm = G.GMixCoellip([0.0, 0.0, 0.1, 0.2, 1.0, 2.0, 3.0, 4.0])
        n = 2
    elif kind == 'cm':
        gm = G.GMixCM(0.3, 1.2, [0.0, 0.0, 0.1, 0.2, 4.0, 1.0])
        n = 16
    else:
        gm = ngmix.GMixModel([0.0, 0.0, 0.1, 0.2, 4.0, 1.0], kind)
        n = len(gm)
    d = gm.get_data()
    if kind == 'cm':
        d['p'] *= vc.real('gpscale', pos=True)
        d['row'] += vc.real('grshift')
    for i in range(n if kind != 'cm' else 1):
        a, b = vc.reals('ga%d gb%d' % (i, i), pos=True)
        c = vc.real('gc%d' % i, gen=lambda r: r.uniform(-0.1, 0.1))
        vc.assume(a * b - c * c > 1e-3)
        d['p'][i], d['row'][i], d['col'][i] = vc.real('gp%d' % i), vc.real('gr%d' % i), vc.real('gl%d' % i)
        d['irr'][i], d['irc'][i], d['icc'][i] = a, c, b
        d['det'][i] = a * b - c * c
        for f in ('drr', 'drc', 'dcc', 'norm', 'pnorm'):
            d[f][i] = vc.real('stale%s%d' % (f, i))
        d['norm_set'][i] = 0
    d['norm_set'][0] = 0
    if vc.case(vc.bool('normalised')):
        r = vc.call(gm.set_norms)
        vc.true('can be normalised', r.ok)
    return gm, n


def comps(gm):
    d = gm.get_data()
    return {f: [d[f][i] for i in range(d.size)] for f in CORE + ['det', 'norm_set', 'drr', 'drc', 'dcc', 'pnorm']}


def same_comps(vc, a, b, nm, but=()):
    for f in a:
        if f not in but:
            vc.eq('%s: %s' % (nm, f), a[f], b[f])


@unit('C07', cases=MODELS, samples=30, cost=3, bound='classes with 1-3 and 16 components')
def copying(vc, kind):
    """a copy has the class, the components and the parameters of the original and shares nothing"""
    import copy
    gm, n = model_state(vc, kind)
    gm._pars[0] = vc.real('par0')
    before = comps(gm)
    p0 = gm._pars.copy()
    for f in (lambda g: g.copy(), copy.copy, copy.deepcopy):
        c = f(gm)
        vc.true('class', type(c) is type(gm))
        vc.true('length', len(c) == n)
        same_comps(vc, before, comps(c), 'copied')
        if kind == 'cm':
            vc.true('cm parameters', c._fracdev == gm._fracdev and c._TdByTe == gm._TdByTe and c._Tfactor == gm._Tfactor)
        vc.true('equal', bool(c == gm))
        if not kind.startswith('full'):
            vc.eq('parameters copied', c._pars, gm._pars)
        # change the copy
        cd = c.get_data()
        cd['p'] = 3.0
        cd['irr'] = 7.0
        cd['norm_set'] = 0
        c._pars[:] = 5.0
        same_comps(vc, before, comps(gm), 'original kept')
        vc.eq('parameters kept', gm._pars, p0)
        # change the original
        c = f(gm)
        d = gm.get_data()
        keep = d.copy()
        d['p'] = 4.0
        d['icc'] = 9.0
        gm._pars[:] = 6.0
        same_comps(vc, before, comps(c), 'copy kept')
        d[:] = keep
        gm._pars[:] = p0
    vc.cover('end')


@unit('C07', cases=['full1', 'full2', 'gauss', 'coellip2'], samples=30, cost=3, bound='1-2 components')
def shearing(vc, kind):
    import ngmix
    gm, n = model_state(vc, kind)
    before = comps(gm)
    s1 = vc.real('s1', gen=lambda r: r.uniform(-0.3, 0.3))
    s2 = vc.real('s2', gen=lambda r: r.uniform(-0.3, 0.3))
    vc.assume(s1 * s1 + s2 * s2 < 1)
    # the map itself is decided by C02
    import math
    fs = [vc.ufun('sheared_' + f, (lambda j: lambda a, b, c, s, t: a + j * b * s + t * c)(j))
          for j, f in enumerate(('rr', 'rc', 'cc'))]
    if vc.symbolic:
        vc.patch(ngmix.moments, 'get_sheared_moments', lambda a, b, c, s, t: tuple(f(a, b, c, s, t) for f in fs))
    if vc.case(vc.bool('shape')):
        sh = gm.get_sheared(ngmix.Shape(s1, s2))
    else:
        sh = gm.get_sheared(s1, s2)
    same_comps(vc, before, comps(gm), 'original kept')
    a = comps(sh)
    for f in ('p', 'row', 'col'):
        vc.eq(f, a[f], before[f])
    for k in range(n):
        rr, rc, cc = ngmix.moments.get_sheared_moments(before['irr'][k], before['irc'][k], before['icc'][k], s1, s2)
        vc.eq('sheared moments', [a['irr'][k], a['irc'][k], a['icc'][k]], [rr, rc, cc])
        vc.eq('determinant', a['det'][k], rr * cc - rc * rc, scale=1)
        vc.true('normalisations to be redone', a['norm_set'][k] == 0)
    r = vc.call(gm.get_sheared, s1)
    vc.true('a shear has two components', not r.ok and r.name == 'ValueError')
    vc.cover('end')


@unit('C07', cases=['full1', 'gauss', 'coellip'], samples=30, cost=3, bound='1-2 components')
def rounding(vc, kind):
    """round version: T scaled by the round factor (or isotropic at the largest extent), the original kept"""
    import ngmix
    g1, g2 = vc.real('g1', gen=lambda r: r.uniform(-0.6, 0.6)), vc.real('g2', gen=lambda r: r.uniform(-0.6, 0.6))
    q = g1 * g1 + g2 * g2
    vc.assume(q < 0.9)
    T, F, row, col = vc.real('T', pos=True), vc.real('F', pos=True), vc.real('row'), vc.real('col')
    e1, e2 = 2 * g1 / (1 + q), 2 * g2 / (1 + q)
    if kind == 'full1':
        gm = ngmix.GMix(pars=[F, row, col, T / 2 * (1 - e1), T / 2 * e2, T / 2 * (1 + e1)])
    elif kind == 'gauss':
        gm = ngmix.GMixModel([row, col, g1, g2, T, F], 'gauss')
    else:
        T2, F2 = vc.real('T2', pos=True), vc.real('F2', pos=True)
        gm = ngmix.gmix.GMixCoellip([row, col, g1, g2, T, T2, F, F2])
    n = len(gm)
    if vc.case(vc.bool('normalised')):
        vc.assume(vc.call(gm.set_norms).ok)
    before = comps(gm)
    pres = vc.case(vc.bool('preserve'))
    if pres:
        if vc.symbolic:
            # run-time only (eigenvalues)
            vc.cover('eig')
            return
        rd = gm.make_round(preserve_size=True)
        fac = 1 + (e1 * e1 + e2 * e2) ** 0.5
    else:
        # reading the shape back is decided by C05
        if vc.symbolic:
            vc.patch(gm.__class__, 'get_g1g2T', lambda self: (g1, g2, T))
            vc.patch(ngmix.GMix, 'get_g1g2T', lambda self: (g1, g2, T))
        rd = gm.make_round()
        fac = (1 - q) / (1 + q)
    same_comps(vc, before, comps(gm), 'original kept')
    a = comps(rd)
    for f in ('p', 'row', 'col'):
        vc.eq(f, a[f], before[f])
    for k in range(n):
        t = (before['irr'][k] + before['icc'][k]) / 2
        vc.eq('irr', a['irr'][k], t * fac, scale=t)
        vc.eq('icc', a['icc'][k], t * fac, scale=t)
        vc.eq('irc', a['irc'][k], 0.0)
        vc.eq('determinant', a['det'][k], t * t * fac * fac, scale=t * t)
        vc.true('normalisations to be redone', a['norm_set'][k] == 0)
    vc.cover('end')


@unit('C07', cases=['full2', 'gauss', 'turb', 'coellip2', 'cm'], samples=30, cost=3, bound='classes with 1-3 and 16 components')
def refilling(vc, kind):
    """after refilling the mixture is the one made from the new parameters"""
    import ngmix
    gm, n = model_state(vc, kind)
    G = ngmix.gmix
    if kind == 'full2':
        p = list(vc.vec('x', 12))
        new = ngmix.GMix(pars=p)
    else:
        row, col, F = vc.reals('nrow ncol nF')
        g1, g2 = vc.real('ng1', gen=lambda r: r.uniform(-0.6, 0.6)), vc.real('ng2', gen=lambda r: r.uniform(-0.6, 0.6))
        vc.assume(g1 * g1 + g2 * g2 < 0.98)
        T = vc.real('nT', pos=True)
        p = [row, col, g1, g2, T, F]
        if kind == 'coellip2':
            p = [row, col, g1, g2, T, T * 2, F, F + 1]
            new = G.GMixCoellip(p)
        elif kind == 'cm':
            new = G.GMixCM(0.3, 1.2, p)
        else:
            new = ngmix.GMixModel(p, kind)
    gm.fill(p)
    a, b = comps(gm), comps(new)
    for f in CORE + ['det', 'norm_set']:
        vc.eq(f, a[f], b[f])
    vc.true('normalisations to be redone', a['norm_set'][0] == 0)
    vc.eq('parameters', gm._pars, p)
    if not kind.startswith('full'):
        c = gm.copy()
        same_comps(vc, a, comps(c), 'copied', but=('drr', 'drc', 'dcc', 'pnorm'))
    vc.cover('end')


@unit('C07', cases=['gauss', 'turb', 'cm', 'coellip2'], samples=30, bound='classes with 1-3 and 16 components')
def model_set_cen(vc, kind):
    """the stored parameters follow the centre"""
    gm, n = model_state(vc, kind)
    if kind in ('turb', 'coellip2'):
        F = gm.get_flux()
        vc.assume(F * F > 1e-2)
    elif kind == 'gauss':
        vc.assume(gm.get_data()['p'][0] * gm.get_data()['p'][0] > 1e-2)
    else:
        F = gm.get_flux()
        vc.assume(F * F > 1e-2)
    r, c = vc.reals('newrow newcol')
    gm.set_cen(r, c)
    vc.eq('parameters', [gm._pars[0], gm._pars[1]], [r, c])
    vc.eq('centre', gm.get_cen(), [r, c], scale=100)
    vc.cover('end')


@unit('C07', samples=20, bound='two components')
def resetting(vc):
    gm, n = model_state(vc, 'full2')
    gm.reset()
    d = gm.get_data()
    for f in CORE + ['det', 'norm_set', 'pnorm']:
        vc.eq(f, [d[f][0], d[f][1]], [0.0, 0.0])
    r = vc.call(gm.set_norms_if_needed)
    vc.true('cannot be evaluated', not r.ok and r.name == 'GMixRangeError')
    vc.cover('end')


@unit('C07', cases=MODELS + ['exp', 'bdf'], samples=60, prove=False,
      bound='run-time only: random sequences of 12 operations on the real code')
def sequences(vc, kind):
    """any sequence evaluates like a fresh mixture"""
    import copy
    import random
    import numpy as np
    import ngmix
    r = random.Random(vc.int('seed', 0, gen=lambda r: r.randrange(10**9)))
    G = ngmix.gmix

    def pars():
        g = [r.uniform(-3, 3), r.uniform(-3, 3), r.uniform(-0.5, 0.5), r.uniform(-0.5, 0.5)]
        if kind.startswith('full'):
            q = []
            for i in range(int(kind[4:])):
                q += [r.uniform(0.1, 3), r.uniform(-2, 2), r.uniform(-2, 2), r.uniform(1, 3), r.uniform(-0.5, 0.5), r.uniform(1, 3)]
            return q
        if kind == 'coellip2':
            return g + [r.uniform(1, 5), r.uniform(1, 5), r.uniform(0.1, 3), r.uniform(0.1, 3)]
        if kind == 'bdf':
            return g + [r.uniform(1, 5), r.random(), r.uniform(0.1, 3)]
        return g + [r.uniform(1, 5), r.uniform(0.1, 3)]

    def make():
        if kind.startswith('full'):
            return ngmix.GMix(pars=pars())
        if kind == 'coellip2':
            return G.GMixCoellip(pars())
        if kind == 'cm':
            return G.GMixCM(0.3, 1.2, pars())
        return ngmix.GMixModel(pars(), kind)
    obs = ngmix.Observation(np.array([[r.gauss(0, 1) for i in range(3)] for j in range(4)]),
                            weight=np.full((4, 3), 2.0), jacobian=ngmix.DiagonalJacobian(row=1.4, col=1.2, scale=0.5))
    pool = [make()]
    hist = []
    for step in range(12):
        i = r.randrange(len(pool))
        gm = pool[i]
        op = r.randrange(12)
        others = [(g, g.get_full_pars(), g.get_loglike(obs)) for g in pool if g is not gm]
        hist.append(op)
        if op == 0:
            gm.set_flux(r.uniform(0.1, 4))
        elif op == 1:
            gm.set_cen(r.uniform(-2, 2), r.uniform(-2, 2))
        elif op == 2:
            gm.fill(pars())
        elif op == 3:
            pool.append(gm.get_sheared(r.uniform(-0.2, 0.2), r.uniform(-0.2, 0.2)))
        elif op == 4:
            q = vc.call(gm.make_round, preserve_size=r.random() < 0.5)
            if q.ok:
                pool.append(q.value)
        elif op == 5:
            c = r.choice([lambda g: g.copy(), copy.copy, copy.deepcopy])(gm)
            vc.eq('copied', c.get_full_pars(), gm.get_full_pars())
            vc.eq('copied', c.get_loglike(obs), fresh(vc, gm).get_loglike(obs))
            pool.append(c)
        elif op == 6:
            gm.make_image((4, 3), fast_exp=r.random() < 0.5)
        elif op == 7:
            vc.call(gm.fill, [1.0])
        elif op == 8:
            # a component that cannot be normalised, then put right again
            d = gm.get_data()
            k = r.randrange(d.size)
            keep = d.copy()
            d['irr'][k] = d['icc'][k] = d['irc'][k] = d['det'][k] = 0.0
            d['norm_set'] = 0
            for e in ENTRY:
                q = vc.call(entry, vc, gm, e, obs)
                vc.true('range error', not q.ok and q.name == 'GMixRangeError')
            for f in ('irr', 'irc', 'icc', 'det'):
                d[f] = keep[f]
        elif op == 9:
            gm.get_loglike(obs)
        elif op == 10:
            pool.append(gm.convolve(pool[0]))
        else:
            gm.get_weighted_sums(obs, maxrad=3.0)
        pool = [g for g in pool if np.all(np.abs(g.get_full_pars()) < 1e6) and (g.get_data()['det'] > 1e-6).all()][:6] or [make()]
        for g, p, l in others:
            vc.eq('the others are not changed', g.get_full_pars(), p)
            vc.eq('the others are not changed', g.get_loglike(obs), l)
        e = ENTRY[r.randrange(len(ENTRY))]
        for g in pool:
            vc.eq('like a fresh mixture', entry(vc, g, e, obs), entry(vc, fresh(vc, g), e, obs))
