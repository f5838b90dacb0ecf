"""Filling mixtures from model parameters and reading them back."""
from pyvc.unit import unit
from harness.gmix_eval import sym_gmix, nb

# published tables of the radial profiles (Hogg & Lang 2013 and the turbulent psf of ngmix)
PE = [0.00061601229677880041, 0.0079461395724623237, 0.053280454055540001, 0.21797364640726541, 0.45496740582554868,
      0.26521634184240478]
FE = [0.002467115141477932, 0.018147435573256168, 0.07944063151366336, 0.27137669897479122, 0.79782256866993773,
      2.1623306025075739]
PD = [6.5288960012625658e-05, 0.00044199216814302695, 0.0020859587871659754, 0.0075913681418996841,
      0.02260266219257237, 0.056532254390212859, 0.11939049233042602, 0.20969545753234975, 0.29254151133139222,
      0.28905301416582552]
FD = [2.9934935706271918e-07, 3.4651596338231207e-06, 2.4807910570562753e-05, 1.4307404300535354e-04,
      7.2753169298239500e-04, 3.4582464394427260e-03, 1.6086645440719100e-02, 7.7006776775654429e-02,
      4.1012562102501476e-01, 2.9812509778548648e00]
PT = [0.596510042804182, 0.4034898268889178, 1.303069003078001e-07]
FT = [0.5793612389470884, 1.621860687127999, 7.019347162356363]
TABLE = dict(gauss=([1.0], [1.0]), exp=(PE, FE), dev=(PD, FD), turb=(PT, FT))


def shape(vc, a='g1', b='g2'):
    g1 = vc.real(a, gen=lambda r: r.choice([0.0, r.uniform(-0.65, 0.65), r.uniform(-0.65, 0.65)]))
    g2 = vc.real(b, gen=lambda r: r.choice([0.0, r.uniform(-0.65, 0.65), r.uniform(-0.65, 0.65)]))
    return g1, g2


def e_of(g1, g2):
    q = g1 * g1 + g2 * g2
    return 2 * g1 / (1 + q), 2 * g2 / (1 + q)


def e_contract(vc):
    """conversion of g to e inside the disk, decided by `kernel_g_to_e` and by C01"""
    vc.contract('g1g2_to_e1e2', pre=lambda vc, g1, g2: g1 * g1 + g2 * g2 < 1,
                result=lambda vc, g1, g2: e_of(g1, g2), why='kernel_g_to_e')


@unit('C05', samples=100)
def kernel_g_to_e(vc):
    M = nb()
    g1, g2 = shape(vc)
    q = g1 * g1 + g2 * g2
    r = vc.call(M.g1g2_to_e1e2, g1, g2)
    if vc.case(q >= 1):
        vc.true('refused', not r.ok and r.name == 'GMixRangeError')
        return
    vc.true('accepted', r.ok)
    vc.eq('e1', r.value[0] * (1 + q), 2 * g1)
    vc.eq('e2', r.value[1] * (1 + q), 2 * g2)
    vc.cover('end')


def component(vc, d, k, p, row, col, irr, irc, icc, sc=None):
    vc.eq('flux', d['p'][k], p)
    vc.eq('row', d['row'][k], row)
    vc.eq('col', d['col'][k], col)
    vc.eq('irr', d['irr'][k], irr, scale=sc)
    vc.eq('irc', d['irc'][k], irc, scale=sc)
    vc.eq('icc', d['icc'][k], icc, scale=sc)
    vc.eq('det', d['det'][k], irr * icc - irc * irc, scale=None if sc is None else sc * sc)
    vc.true('norms unset', d['norm_set'][k] == 0)


@unit('C05')
def fill_simple(vc):
    """any number of components, any table"""
    M = nb()
    n = vc.int('n', 1)
    gm = sym_gmix(vc, 'g', n)
    pv = vc.symarr('pv', n, {None: dict(pos=True)})
    fv = vc.symarr('fv', n, {None: dict(pos=True)})
    row, col, flux = vc.reals('row col flux')
    T = vc.real('T', pos=True)
    g1, g2 = shape(vc)
    vc.assume(g1 * g1 + g2 * g2 < 0.98)
    e1, e2 = e_of(g1, g2)
    e_contract(vc)
    M.gmix_fill_simple(gm, vc.np.array([row, col, g1, g2, T, flux]), fv, pv)
    k = vc.at('k', n)
    t = T * fv[k] / 2
    component(vc, gm, k, flux * pv[k], row, col, t * (1 - e1), t * e2, t * (1 + e1), sc=t)
    vc.cover('end')


@unit('C05')
def fill_coellip(vc):
    M = nb()
    n = vc.int('n', 1)
    gm = sym_gmix(vc, 'g', n)
    pars = vc.symarr('pars', 4 + 2 * n, {None: dict(gen=lambda r: r.uniform(-0.6, 0.6))})
    g1, g2 = pars[2], pars[3]
    vc.assume(g1 * g1 + g2 * g2 < 0.98)
    e1, e2 = e_of(g1, g2)
    e_contract(vc)
    M.gmix_fill_coellip(gm, pars)
    k = vc.at('k', n)
    t = pars[4 + k] / 2
    component(vc, gm, k, pars[4 + n + k], pars[0], pars[1], t * (1 - e1), t * e2, t * (1 + e1), sc=abs(t) if not vc.symbolic else None)
    vc.cover('end')


@unit('C05')
def fill_full(vc):
    M = nb()
    n = vc.int('n', 1)
    gm = sym_gmix(vc, 'g', n)
    pars = vc.symarr('pars', 6 * n, {None: {}})
    M.gmix_fill_full(gm, pars)
    k = vc.at('k', n)
    b = 6 * k
    component(vc, gm, k, pars[b], pars[b + 1], pars[b + 2], pars[b + 3], pars[b + 4], pars[b + 5], sc=10.0)
    vc.cover('end')


def basic(vc, g=True):
    row, col, flux = vc.reals('row col flux')
    T = vc.real('T', pos=True)
    g1, g2 = shape(vc)
    vc.assume(g1 * g1 + g2 * g2 < 0.98)
    return row, col, g1, g2, T, flux


def overall(vc, gm, row, col, g1, g2, T, flux, ptot, tsum, tol=1e-5):
    """flux, centre, shape and size of the whole mixture.  ptot: sum of the
    table's fluxes; tsum: flux weighted sum of its sizes"""
    e1, e2 = e_of(g1, g2)
    vc.eq('total flux', gm.get_flux(), flux * ptot)
    vc.le('total flux is the flux', abs(gm.get_flux() - flux), tol * abs(flux))
    vc.assume(vc.Not(flux == 0))
    r, c = gm.get_cen()
    vc.eq('centre row', r, row)
    vc.eq('centre col', c, col)
    vc.eq('size', gm.get_T() * ptot, T * tsum)
    f1, f2, t = gm.get_e1e2T()
    vc.eq('e1', f1, e1, scale=1)
    vc.eq('e2', f2, e2, scale=1)
    vc.eq('same T', t * ptot, T * tsum)


@unit('C05', cases=['gauss', 'turb', 'exp', 'dev'], cost=3)
def simple_model(vc, model):
    import ngmix
    pv, fv = TABLE[model]
    row, col, g1, g2, T, flux = basic(vc)
    e_contract(vc)
    pars = [row, col, g1, g2, T, flux]
    gm = ngmix.GMixModel(pars, model)
    d = gm.get_data()
    vc.true('number of components', len(gm) == len(pv) and d.size == len(pv))
    e1, e2 = e_of(g1, g2)
    for k in range(len(pv)):
        t = T * fv[k] / 2
        component(vc, d, k, flux * pv[k], row, col, t * (1 - e1), t * e2, t * (1 + e1), sc=t)
    one = T / T if vc.symbolic else 1.0
    ptot = sum([p * one for p in pv], 0 * one)
    tsum = sum([p * one * f for p, f in zip(pv, fv)], 0 * one)
    vc.le('published fluxes sum to one', abs(ptot - 1), 1e-5)
    vc.le('published sizes average to one', abs(tsum - 1), {'gauss': 1e-12, 'turb': 1e-3, 'exp': 1e-2, 'dev': 1e-2}[model])
    overall(vc, gm, row, col, g1, g2, T, flux, ptot, tsum)
    vc.cover('end')


@unit('C05', cases=['cm', 'bdf', 'bd'], cost=5, budget=200)
def composite_model(vc, model):
    """size of the whole is T whatever the bulge fraction"""
    import ngmix
    row, col, g1, g2, T, flux = basic(vc)
    fd = vc.real('fracdev', lo=0.0, hi=1.0)
    e_contract(vc)
    td = 1.0
    if model == 'cm':
        td = vc.real('TdByTe', pos=True)
        gm = ngmix.gmix.GMixCM(fd, td, [row, col, g1, g2, T, flux])
    elif model == 'bdf':
        gm = ngmix.GMixModel([row, col, g1, g2, T, fd, flux], model)
    else:
        lt = vc.real('logTdByTe', gen=lambda r: r.uniform(-1, 1))
        td = 10.0 ** lt
        gm = ngmix.GMixModel([row, col, g1, g2, T, lt, fd, flux], model)
    d = gm.get_data()
    vc.true('number of components', len(gm) == 16 and d.size == 16)
    P = [p * (1 - fd) for p in PE] + [p * fd for p in PD]
    one = T / T if vc.symbolic else 1.0
    F = [f * one for f in FE] + [f * td for f in FD]
    fac = sum([p * f for p, f in zip(P, F)], 0 * one)
    ptot = sum(P, 0 * one)
    e1, e2 = e_of(g1, g2)
    for k in range(16):
        vc.eq('flux', d['p'][k], flux * P[k])
        vc.eq('row', d['row'][k], row)
        vc.eq('col', d['col'][k], col)
        t = T * F[k] / 2
        vc.eq('irr', d['irr'][k] * fac, t * (1 - e1), scale=t)
        vc.eq('irc', d['irc'][k] * fac, t * e2, scale=t)
        vc.eq('icc', d['icc'][k] * fac, t * (1 + e1), scale=t)
        vc.eq('det', d['det'][k], d['irr'][k] * d['icc'][k] - d['irc'][k] * d['irc'][k], scale=t * t)
        vc.true('norms unset', d['norm_set'][k] == 0)
    vc.le('fluxes sum to one', abs(ptot - 1), 1e-5)
    vc.eq('total flux', gm.get_flux(), flux * ptot)
    if model == 'cm':
        vc.eq('factor', ngmix.gmix.gmix_nb.get_cm_Tfactor(fd, td) * fac, 1.0)
    vc.assume(vc.Not(flux == 0))
    overall(vc, gm, row, col, g1, g2, T, flux, ptot, 1.0)
    vc.cover('end')


@unit('C05', cases=[1, 2, 3], thorough=[5], bound='1-3 components (the kernel is proved for any number)')
def coellip_model(vc, n):
    import ngmix
    row, col = vc.reals('row col')
    g1, g2 = shape(vc)
    vc.assume(g1 * g1 + g2 * g2 < 0.98)
    e_contract(vc)
    Ts = [vc.real('T%d' % i, pos=True) for i in range(n)]
    Fs = [vc.real('F%d' % i, pos=True) for i in range(n)]
    gm = ngmix.gmix.GMixCoellip([row, col, g1, g2] + Ts + Fs)
    d = gm.get_data()
    e1, e2 = e_of(g1, g2)
    vc.true('number of components', len(gm) == n and d.size == n)
    for k in range(n):
        t = Ts[k] / 2
        component(vc, d, k, Fs[k], row, col, t * (1 - e1), t * e2, t * (1 + e1), sc=t)
    ft = sum(Fs)
    vc.eq('flux', gm.get_flux(), ft)
    vc.eq('size', gm.get_T() * ft, sum(f * t for f, t in zip(Fs, Ts)))
    r = gm.get_cen()
    vc.eq('centre', r, [row, col])
    f1, f2, t = gm.get_e1e2T()
    vc.eq('e1', f1, e1, scale=1)
    vc.eq('e2', f2, e2, scale=1)
    vc.cover('end')


@unit('C05', cases=['gauss', 'turb', 'exp', 'dev', 'cm', 'bdf', 'bd', 'coellip'], samples=40)
def refused(vc, model):
    """out of range shear or a wrong number of parameters: no mixture, and an existing one is left alone"""
    import ngmix
    g1 = vc.real('g1', gen=lambda r: r.choice([1.0, r.uniform(0.6, 2), -r.uniform(0.6, 2)]))
    g2 = vc.real('g2', gen=lambda r: r.choice([0.0, r.uniform(0.6, 2), -r.uniform(0.6, 2)]))
    bad = g1 * g1 + g2 * g2 >= 1
    vc.assume(bad)
    tail = dict(gauss=[4.0, 10.0], turb=[4.0, 10.0], exp=[4.0, 10.0], dev=[4.0, 10.0], cm=[4.0, 10.0],
                bdf=[4.0, 0.3, 10.0], bd=[4.0, 0.1, 0.3, 10.0], coellip=[4.0, 5.0, 10.0, 11.0])[model]

    def make(p):
        if model == 'cm':
            return ngmix.gmix.GMixCM(0.3, 1.2, p)
        if model == 'coellip':
            return ngmix.gmix.GMixCoellip(p)
        return ngmix.GMixModel(p, model)
    r = vc.call(make, [0.0, 0.0, g1, g2] + tail)
    vc.true('out of range shear', not r.ok and r.name == 'GMixRangeError')
    gm = make([0.5, -0.5, 0.1, 0.2] + tail)
    keep = gm.copy()
    r = vc.call(gm.fill, [0.0, 0.0, g1, g2] + tail)
    vc.true('out of range shear refused by fill', not r.ok and r.name == 'GMixRangeError')
    for f in ('p', 'row', 'col', 'irr', 'irc', 'icc', 'det'):
        vc.eq('unchanged after a refused fill', gm.get_data()[f], keep.get_data()[f])
    c = vc.call(gm.copy)
    vc.true('can be copied', c.ok)
    vc.eq('parameters unchanged', gm._pars, keep._pars)
    good = [0.0, 0.0, 0.1, 0.2] + tail
    for p in (good[:-1], good + [1.0], good[:3]):
        r = vc.call(gm.fill, p)
        vc.true('wrong number of parameters refused by fill', not r.ok and r.name == 'ValueError')
        if model != 'coellip' or (len(p) - 4) % 2:
            r = vc.call(make, p)
            vc.true('wrong number of parameters', not r.ok and r.name == 'ValueError')
    vc.eq('unchanged', gm.get_data()['irr'], keep.get_data()['irr'])
    for nm in ('nosuch', 'gaus', 99, None):
        r = vc.call(ngmix.GMixModel, good[:6], nm)
        vc.true('unknown model', not r.ok and r.name == 'ValueError')


def wrap(vc, data, n):
    """a GMix of any number of components"""
    import ngmix
    gm = ngmix.GMix(ngauss=1)
    vc.put(gm, '_data', data)
    vc.put(gm, '_ngauss', n)
    vc.put(gm, '_npars', 6 * n)
    return gm


@unit('C05', cost=3)
def read_back(vc):
    """flux weighted averages over any number of components"""
    n = vc.int('n', 1)
    d = sym_gmix(vc, 'g', n)
    gm = wrap(vc, d, n)
    P = vc.sum(n, lambda k: d['p'][k])
    vc.assume(P * P > 1e-3)
    R = vc.sum(n, lambda k: d['row'][k] * d['p'][k])
    C = vc.sum(n, lambda k: d['col'][k] * d['p'][k])
    vc.eq('flux', gm.get_flux(), P)
    row, col = gm.get_cen()
    sc = None if vc.symbolic else 10.0
    vc.eq('row', row * P, R, scale=sc)
    vc.eq('col', col * P, C, scale=sc)
    srr = vc.sum(n, lambda k: (d['irr'][k] + (d['row'][k] - row) ** 2) * d['p'][k])
    src = vc.sum(n, lambda k: (d['irc'][k] + (d['row'][k] - row) * (d['col'][k] - col)) * d['p'][k])
    scc = vc.sum(n, lambda k: (d['icc'][k] + (d['col'][k] - col) ** 2) * d['p'][k])
    vc.eq('T', gm.get_T() * P, srr + scc, scale=sc)
    vc.assume((srr + scc) * (srr + scc) > 1e-3)
    e1, e2, T = gm.get_e1e2T()
    vc.eq('T again', T * P, srr + scc, scale=sc)
    vc.eq('e1', e1 * (srr + scc), scc - srr, scale=sc)
    vc.eq('e2', e2 * (srr + scc), 2 * src, scale=sc)
    # kernel versions
    M = nb()
    r = vc.call(M.gmix_get_cen, d)
    vc.true('kernel centre', r.ok)
    vc.eq('kernel row', r.value[0], row, scale=sc)
    vc.eq('kernel col', r.value[1], col, scale=sc)
    vc.eq('kernel flux', r.value[2], P, scale=sc)
    r = vc.call(M.gmix_get_e1e2T, d)
    if vc.case(srr + scc > 0):
        vc.true('kernel shape', r.ok)
        vc.eq('kernel e1', r.value[0] * (srr + scc), scc - srr, scale=sc)
        vc.eq('kernel e2', r.value[1] * (srr + scc), 2 * src, scale=sc)
        vc.eq('kernel T', r.value[2] * P, srr + scc, scale=sc)
    else:
        vc.true('nonpositive size refused', not r.ok and r.name == 'GMixRangeError')
    vc.cover('end')


@unit('C05', cases=[1, 2, 3], bound='1-3 components')
def full_round_trip(vc, n):
    """the full parameters rebuild the mixture"""
    import ngmix
    pars = vc.vec('x', 6 * n)
    gm = ngmix.GMix(pars=pars)
    vc.eq('parameters read back', gm.get_full_pars(), pars)
    d = gm.get_data()
    for k in range(n):
        b = 6 * k
        component(vc, d, k, pars[b], pars[b + 1], pars[b + 2], pars[b + 3], pars[b + 4], pars[b + 5], sc=10.0)
    c = ngmix.gmix.gmix_concat([gm, gm.copy(), gm])
    vc.true('concatenated', len(c) == 3 * n)
    vc.eq('concatenated parameters', c.get_full_pars(), list(pars) * 3)
    r = vc.call(ngmix.GMix, pars=list(pars)[:-1])
    vc.true('not a multiple of six', not r.ok and r.name == 'ValueError')
    vc.cover('end')


@unit('C05', samples=60)
def g_and_sigma(vc):
    """g1, g2 and sigma views of the same mixture"""
    import ngmix
    row, col, g1, g2, T, flux = basic(vc)
    vc.assume(vc.Not(flux == 0))
    gm = ngmix.GMixModel([row, col, g1, g2, T, flux], 'gauss')
    e_contract(vc)
    h1, h2, t = gm.get_g1g2T()
    vc.eq('g1', h1, g1, scale=1)
    vc.eq('g2', h2, g2, scale=1)
    vc.eq('T', t, T)
    s = gm.get_sigma()
    vc.eq('sigma', 2 * s * s, T)
    vc.le('sigma positive', 0, s)
    a = gm.get_e1e2sigma()
    b = gm.get_g1g2sigma()
    e = gm.get_e1e2T()
    vc.eq('e1e2sigma', a, [e[0], e[1], s])
    vc.eq('g1g2sigma', b, [h1, h2, s])
    vc.cover('end')
