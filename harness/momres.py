"""Moment results and weighted moment sums."""
from pyvc.unit import unit
from harness.gmix_eval import sym_gmix, pix, nb

NPV, NPF, NPS, NPSV = 2**6, 2**2, 2**3, 2**8


def momcov(vc, n):
    m = vc.vec('m', n, gen=lambda r: r.choice([r.gauss(0, 2), r.gauss(0, 2), r.uniform(0.5, 4), r.uniform(0.5, 4), 0.0 if r.random() < 0.3 else 1.0]))
    c = vc.np.zeros((n, n))
    neg = vc.case(vc.bool('neg')) if not vc.symbolic else None
    for i in range(n):
        if vc.symbolic:
            c[i, i] = vc.real('c_%d_%d' % (i, i))
        else:
            c[i, i] = vc.real('c_%d_%d' % (i, i), gen=lambda r: r.choice([r.gauss(0, 2), 0.0]) if neg and r.random() < 0.5 else r.uniform(0.1, 3))
        for j in range(i):
            c[i, j] = c[j, i] = vc.real('c_%d_%d' % (i, j), gen=lambda r: r.uniform(-0.3, 0.3))
    return m, c


def spec_error(vc, a, b, va, vb, cab):
    v = va * b * b + vb * a * a - 2 * a * b * cab
    x = vc.ite(v > 0, v, 0.0)
    vc.have('clipped variance is not negative', x >= 0)
    return vc.fn('sqrt', x) / (b * b)


def error_contract(vc):
    vc.contract('get_ratio_error', pre=lambda vc, a, b, va, vb, cab: vc.Not(b == 0), result=spec_error, why='ratio')


def ratio_err(vc, nm, err, a, b, va, vb, cab):
    sc = None
    if not vc.symbolic:
        sc = ((abs(va * b * b) + abs(vb * a * a) + abs(2 * a * b * cab)) * 1e-14) ** 0.5 * 1e7 / (b * b)
    vc.eq(nm, err, spec_error(vc, a, b, va, vb, cab), scale=sc)


def check(vc, res, m, c, norm, n):
    flags = __import__('ngmix').flags
    mv, mu, m1, m2, mt, mf = 0, 1, 2, 3, 4, 5
    F, vF, vT = m[mf], c[mf, mf], c[mt, mt]
    vc.eq('flux', res['flux'], F)
    vc.eq('sums kept', res['sums'], m)
    vc.eq('sums_cov kept', res['sums_cov'], c)
    vc.eq('sums_norm', res['sums_norm'], norm)
    # flux
    posF = vc.case(vF > 0)
    if posF:
        vc.true('flux not flagged', res['flux_flags'] == 0)
        vc.eq('flux_err squared', res['flux_err'] * res['flux_err'], vF)
        vc.le('flux_err >= 0', 0, res['flux_err'])
        vc.eq('s2n', res['s2n'] * res['flux_err'], F)
    else:
        vc.true('flux variance flagged', res['flux_flags'] == NPV)
        vc.isnan('flux_err', res['flux_err'])
        vc.isnan('s2n', res['s2n'])
    # size
    if posF and vc.case(vT > 0):
        if vc.case(F > 0):
            vc.true('T not flagged', res['T_flags'] == 0)
            vc.eq('T', res['T'] * F, m[mt])
            ratio_err(vc, 'T_err', res['T_err'], m[mt], F, vT, vF, c[mt, mf])
        else:
            vc.true('T flagged with flux', res['T_flags'] == NPF)
            vc.isnan('T', res['T'])
            vc.isnan('T_err', res['T_err'])
    else:
        vc.true('T flagged with variance', res['T_flags'] == NPV)
        vc.isnan('T', res['T'])
        vc.isnan('T_err', res['T_err'])
    # shape
    allpos = vc.case(vc.And(*[c[i, i] > 0 for i in range(n)]))
    if allpos:
        for i in range(n):
            vc.eq('sums_err', res['sums_err'][i] * res['sums_err'][i], c[i, i])
            vc.le('sums_err >= 0', 0, res['sums_err'][i])
        good = False
        if not vc.case(F > 0):
            vc.true('nonpositive flux flagged', res['flags'] == NPF)
        elif not vc.case(m[mt] > 0):
            vc.true('nonpositive size flagged', res['flags'] == NPS)
        else:
            good = True
            vc.true('no flag', res['flags'] == 0)
            vc.eq('e1', res['e1'] * m[mt], m[m1])
            vc.eq('e2', res['e2'] * m[mt], m[m2])
            vc.eq('e', res['e'], [res['e1'], res['e2']])
            for k, i in enumerate((m1, m2)):
                ratio_err(vc, 'e_err', res['e_err'][k], m[i], m[mt], c[i, i], vT, c[i, mt])
                vc.eq('e_cov', res['e_cov'][k, k], res['e_err'][k] * res['e_err'][k])
                vc.eq('e_cov off diagonal', res['e_cov'][k, 1 - k], 0.0)
            vc.eq('pars', res['pars'], [m[mv], m[mu], res['e1'], res['e2'], res['T'], F])
            for nm in ('flux', 'flux_err', 'T', 'T_err', 's2n', 'e1', 'e2', 'e', 'e_err', 'e_cov', 'pars', 'sums_err'):
                vc.finite('%s finite when not flagged' % nm, res[nm])
    else:
        vc.true('variance flagged', res['flags'] == NPV)
        good = False
    if not good:
        for nm in ('e1', 'e2'):
            vc.isnan(nm, res[nm])
        for k in (0, 1):
            vc.isnan('e', res['e'][k])
            vc.isnan('e_err', res['e_err'][k])
            vc.isnan('e_cov', res['e_cov'][k, k])
    for p in ('', 'flux_', 'T_'):
        vc.eq(p + 'flagstr', res[p + 'flagstr'], flags.get_flags_str(int(res[p + 'flags'])))
    # named sums
    M = __import__('ngmix').moments.MOMENTS_NAME_MAP
    for nm, i in M.items():
        if i >= n:
            vc.true('no name beyond the sums', nm not in res)
        elif i == mf:
            vc.eq('named flux', res[nm], F)
        elif vc.case(F > 0):
            vc.eq('named sum', res[nm] * F, m[i])
        else:
            vc.isnan('named sum', res[nm])
    vc.cover('end')


@unit('C04', samples=150, cost=5)
def mom_result(vc):
    from ngmix.moments import make_mom_result
    m, c = momcov(vc, 6)
    norm = vc.real('norm')
    m0, c0 = m.copy(), c.copy()
    error_contract(vc)
    res = make_mom_result(m, c, norm)
    check(vc, res, m0, c0, norm, 6)


@unit('C04', samples=60, cost=5, budget=120)
def mom_result_higher(vc):
    """seventeen moments"""
    from ngmix.moments import make_mom_result
    m, c = momcov(vc, 17)
    norm = vc.real('norm')
    m0, c0 = m.copy(), c.copy()
    error_contract(vc)
    res = make_mom_result(m, c, norm)
    check(vc, res, m0, c0, norm, 17)


@unit('C04')
def ratio(vc):
    """first-order variance of a ratio, defined for every nonzero denominator"""
    from ngmix.util import get_ratio_var, get_ratio_error
    a, b, va, vb, cab = vc.reals('a b va vb cab')
    r = vc.call(get_ratio_var, a, b, va, vb, cab)
    if vc.case(b == 0):
        vc.true('zero denominator refused', not r.ok and r.name == 'ValueError')
        return
    vc.true('accepted', r.ok)
    v = va * b * b + vb * a * a - 2 * a * b * cab
    sc = (abs(va * b * b) + abs(vb * a * a) + abs(a * b * cab)) if not vc.symbolic else None
    vc.eq('variance', r.value * b * b * b * b, v, scale=sc)
    e = get_ratio_error(a, b, va, vb, cab)
    # e is spec_error(a, b, ...): nonnegative, with this square
    if vc.case(v > 0):
        vc.eq('error squared', e * e * b * b * b * b, v, scale=sc)
    else:
        vc.eq('error of a nonpositive variance', e * e * b * b * b * b, 0.0, tol=1e-7, scale=sc)
    vc.le('error >= 0', 0, e)
    vc.cover('end')


@unit('C04', samples=40)
def bad_sizes(vc):
    from ngmix.moments import make_mom_result
    for n in (0, 1, 5, 7, 16, 18):
        r = vc.call(make_mom_result, vc.np.zeros(n), vc.np.zeros((6, 6)), 1.0)
        vc.true('number of moments checked', not r.ok and r.name == 'ValueError')
        r = vc.call(make_mom_result, vc.np.zeros(6), vc.np.zeros((n, n)), 1.0)
        vc.true('covariance shape checked', not r.ok and r.name == 'ValueError')


@unit('C04', cases=[6, 17], samples=80, cost=4)
def regularized(vc, n):
    """regularised shapes are M/(T + T_reg), the covariance is transformed accordingly and everything else is unchanged"""
    from ngmix.moments import make_mom_result, regularize_mom_shapes, fwhm_to_T
    np = vc.np
    m, c = momcov(vc, n)
    for i in range(n):
        vc.assume(c[i, i] > 0)
    fwhm = vc.real('fwhm', pos=True)
    Tr = fwhm_to_T(fwhm)
    m0, c0 = m.copy(), c.copy()
    error_contract(vc)
    res = make_mom_result(m, c, 1.0)
    keep = dict(res)
    reg = regularize_mom_shapes(res, fwhm)
    vc.eq('input sums kept', res['sums'], m0)
    vc.eq('input covariance kept', res['sums_cov'], c0)
    for nm in ('T', 'T_err', 'T_flags', 'T_flagstr', 'flux', 'flux_err'):
        vc.eq(nm + ' unchanged', reg[nm], keep[nm])
    want = [m0[i] for i in range(n)]
    want[4] = m0[4] + Tr * m0[5]
    vc.eq('sums', reg['sums'], want, scale=1)
    A = [[1.0 if i == j else 0.0 for j in range(n)] for i in range(n)]
    i, j = 4, 2
    vc.eq('covariance', reg['sums_cov'][4, 2], c0[4, 2] + Tr * c0[5, 2], scale=1)
    vc.eq('variance', reg['sums_cov'][4, 4], c0[4, 4] + 2 * Tr * c0[4, 5] + Tr * Tr * c0[5, 5], scale=1)
    vc.eq('other variance', reg['sums_cov'][3, 3], c0[3, 3])
    vc.true('flags accumulate', int(reg['flags']) & int(keep['flags']) == int(keep['flags']))
    if int(reg['flags']) == 0:
        vc.eq('e1', reg['e1'] * (m0[4] + Tr * m0[5]), m0[2], scale=1)
        vc.eq('e2', reg['e2'] * (m0[4] + Tr * m0[5]), m0[3], scale=1)
    vc.cover('end')
    r2 = regularize_mom_shapes(res, 0.0)
    vc.true('no regularisation', r2 is res)


# ------------------------------------------------------------------ C21

def record(vc, higher):
    import ngmix.gmix.gmix as G
    dt = vc.np.dtype(G.get_moments_result_dtype(with_higher_order=higher))
    return vc.np.zeros(1, dtype=dt)[0]


def basis(p, v0, u0, higher):
    v, u = p['v'] - v0, p['u'] - u0
    r2 = u * u + v * v
    f = [p['v'], p['u'], u * u - v * v, 2 * v * u, r2, 1.0]
    if higher:
        u2, v2 = u * u, v * v
        f += [u * r2, v * r2, u * (u2 - 3 * v2), v * (3 * u2 - v2), r2 * r2, r2 * (u2 - v2), 2 * r2 * u * v,
              u2 * u2 - 6 * u2 * v2 + v2 * v2, 4 * u * v * (u2 - v2), r2 * r2 * r2, r2 * r2 * r2 * r2]
    return r2, f


def weights(vc):
    """call-site contract of gmix_eval_pixel (its value is decided by C06): some weight per pixel"""
    M = nb()
    n = vc.int('n', 1, gen=lambda r: r.randrange(1, 30))
    px = pix(vc, 'px', n)
    gm = sym_gmix(vc, 'g', 1)
    if vc.symbolic:
        from pyvc.sym import mkint
        w = vc.symarr('w', n, {None: {}})
        vc.patch(M, 'gmix_eval_pixel', lambda g, p: w[mkint(p.idx[0])])
        W = lambda k: w[k]
    else:
        W = lambda k: M.gmix_eval_pixel(gm, px[k])
    return M, n, px, gm, W


@unit('C21', cases=[False, True], cost=9, budget=200)
def sums(vc, higher):
    M, n, px, gm, W = weights(vc)
    for k in ('drr', 'drc', 'dcc', 'pnorm'):
        if not vc.symbolic:
            gm[k] = dict(drr=1.0, drc=0.1, dcc=1.2, pnorm=1.0)[k]
    maxrad = vc.real('maxrad', pos=True)
    res = record(vc, higher)
    f = M.get_higher_order_weighted_sums if higher else M.get_weighted_sums
    f(gm, px, res, maxrad)
    v0, u0 = gm['row'][0], gm['col'][0]
    nm = 17 if higher else 6

    def inside(k):
        r2, F = basis(px[k], v0, u0, higher)
        return r2 < maxrad * maxrad, F
    vc.eq('npix', res['npix'], vc.sum(n, lambda k: vc.ite(inside(k)[0], 1.0, 0.0)))
    vc.eq('wsum', res['wsum'], vc.sum(n, lambda k: vc.ite(inside(k)[0], W(k), 0.0)), scale=1)
    for i in range(nm):
        vc.eq('sum %d' % i, res['sums'][i], vc.sum(
            n, lambda k: vc.ite(inside(k)[0], W(k) * px[k]['val'] * inside(k)[1][i], 0.0)), scale=1)
        for j in range(nm):
            vc.eq('covariance %d %d' % (i, j), res['sums_cov'][i, j], vc.sum(
                n, lambda k: vc.ite(inside(k)[0], W(k) * W(k) * inside(k)[1][i] * inside(k)[1][j]
                                    / (px[k]['ierr'] * px[k]['ierr']), 0.0)), scale=1)
    vc.cover('end')


class Holder(object):
    def __init__(self, **k):
        self.__dict__.update(k)


def kernel_stub(vc, higher):
    """the sums of the pixel loop (decided by `sums`) are arbitrary numbers here"""
    M = nb()
    nm = 17 if higher else 6
    m, c = momcov(vc, nm)
    w = vc.real('wsum')
    calls = []

    def f(wt, pixels, res, maxrad):
        calls.append((wt, pixels, maxrad))
        for i in range(nm):
            res['sums'][i] += m[i]
            for j in range(nm):
                res['sums_cov'][i, j] += c[i, j]
        res['wsum'] += w
        res['npix'] += 1
    vc.patch(M, 'get_higher_order_weighted_sums' if higher else 'get_weighted_sums', f)
    return m, c, w, calls


@unit('C21', cases=[False, True], samples=60, cost=3)
def gaussmom(vc, higher):
    """the result follows from the sums, with the pixel area taken out, whether flagged or not"""
    import ngmix
    from ngmix.moments import make_mom_result
    fwhm = vc.real('fwhm', pos=True)
    vc.assume(fwhm > 1e-3)
    area = vc.real('area', pos=True)
    n = 17 if higher else 6
    fitter = ngmix.gaussmom.GaussMom(fwhm, with_higher_order=higher)
    m, c, w, calls = kernel_stub(vc, higher)
    pixels = object()
    obs = Holder(pixels=pixels, jacobian=Holder(area=area))
    error_contract(vc)
    res = fitter.go(obs)
    vc.true('one pass over the pixels', len(calls) == 1)
    wt, px, maxrad = calls[0]
    vc.true('pixels of the observation', px is pixels)
    T = ngmix.moments.fwhm_to_T(fwhm)
    vc.eq('aperture', maxrad * maxrad, 10000 * T / 2)
    vc.le('aperture positive', 0, maxrad)
    g = wt[0]
    vc.true('normalisation is current', g['norm_set'] == 1)
    for nm, v in dict(row=0.0, col=0.0, irc=0.0, irr=T / 2, icc=T / 2, pnorm=1.0, drc=0.0, drr=2 / T, dcc=2 / T).items():
        vc.eq('weight ' + nm, g[nm], v, scale=1e-3)
    ref = make_mom_result(m.copy(), c.copy(), w)
    scaled = dict(flux=1, flux_err=1, sums=1, sums_cov=2, sums_norm=1, wsum=1, sums_err=1, MF=1, MF_err=1, M00=1, M00_err=1)
    ref['wsum'] = w
    pars = ref.pop('pars', None)
    f = 1 / area
    for nm, v in ref.items():
        k = scaled.get(nm, 0)
        if isinstance(v, str) or k == 0:
            vc.eq(nm, res[nm], v)
        else:
            import numpy
            x = numpy.asarray(v, dtype=object).ravel()
            y = numpy.asarray(res[nm], dtype=object).ravel()
            vc.true(nm + ' size', len(x) == len(y))
            for a, b in zip(x, y):
                vc.eq(nm + ' in flux units', b, a * f if k == 1 else a * f * f)
    if pars is not None:
        vc.eq('pars', res['pars'], [pars[0], pars[1], pars[2], pars[3], pars[4], pars[5] * f])
    vc.cover('end')


@unit('C21', cases=[False, True], samples=30)
def weighted_sums_method(vc, higher):
    """GMix.get_weighted_sums passes its own normalised components, the pixels and the aperture, and adds to the sums given"""
    import ngmix
    m, c, w, calls = kernel_stub(vc, higher)
    row, col, p = vc.reals('row col p')
    T = vc.real('T', pos=True)
    vc.assume(T > 1e-3)
    vc.assume(vc.Not(p == 0))
    gm = ngmix.GMixModel([row, col, 0.0, 0.0, T, p], 'gauss')
    pixels = object()
    obs = Holder(pixels=pixels)
    rad = vc.real('rad', pos=True)
    res = gm.get_weighted_sums(obs, maxrad=rad, with_higher_order=higher)
    wt, px, maxrad = calls[0]
    vc.eq('aperture as given', maxrad, rad)
    vc.true('pixels', px is pixels)
    vc.true('norms set', wt[0]['norm_set'] == 1)
    vc.eq('weight flux', wt[0]['p'], p)
    vc.eq('sums', res['sums'], m)
    again = gm.get_weighted_sums(obs, maxrad=rad, with_higher_order=higher, res=res)
    vc.true('same result', again is res)
    vc.eq('accumulated', res['sums'], [2 * x for x in m])
    gm.get_weighted_sums(obs, with_higher_order=higher)
    vc.eq('default aperture', calls[2][2] * calls[2][2], 10000 * T / 2)
    if not higher:
        for g in (gm.get_weighted_sums,) if vc.symbolic else (gm.get_weighted_sums, gm.get_weighted_moments):
            r = vc.call(g, obs, maxrad=rad)
            vc.true('six sums unless asked for more', r.ok and vc.np.size(r.value['sums']) == 6)
    vc.cover('end')
