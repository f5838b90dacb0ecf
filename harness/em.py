"""Expectation maximisation."""
from pyvc.unit import unit
from harness.gmix_eval import sym_gmix, nb, pix, NORMS, chi2_of

# kind: extra per-pixel moments, extra totals, what is held
FIRST = ['tvsum', 'tusum']
SECOND = ['tv2sum', 'tuvsum', 'tu2sum']
KINDS = {
    '': (FIRST + SECOND, ['vsum', 'usum', 'v2sum', 'uvsum', 'u2sum']),
    '_fixcen': (SECOND, ['v2sum', 'uvsum', 'u2sum']),
    '_fixcov': (FIRST, ['vsum', 'usum']),
    '_fluxonly': ([], []),
}
PAIR = dict(tvsum='vsum', tusum='usum', tv2sum='v2sum', tuvsum='uvsum', tu2sum='u2sum')


def EM():
    import ngmix.em.em_nb as m
    return m


def sums_arr(vc, kind, n, name='s'):
    t, s = KINDS[kind]
    f = {'gi': {}, 'pnew': {}}
    for x in t + s:
        f[x] = {}
    return vc.symarr(name, n, f)


def weight(vc, g, k, p):
    """flux of component k in pixel p"""
    c = chi2_of(g, k, p['v'], p['u'])
    inside = vc.And(c < 25, c >= 0)
    if not vc.symbolic:
        return (g['pnorm'][k] * vc.fexp(-0.5 * c) * p['area']) if inside else 0.0
    return vc.ite(inside, g['pnorm'][k] * vc.fexp(-0.5 * c) * p['area'], 0.0)


def moment(f, g, k, p):
    v, u = p['v'], p['u']
    dv, du = v - g['row'][k], u - g['col'][k]
    return {'tvsum': v, 'tusum': u, 'tv2sum': dv * dv, 'tuvsum': dv * du, 'tu2sum': du * du, 'gi': 1.0}[f]


@unit('C19', cases=list(KINDS), samples=60)
def expectation(vc, kind):
    """the responsibilities of one pixel, any number of components and of psf gaussians"""
    M = EM()
    vc.opaque_fexp()
    n = vc.int('n', 1, gen=lambda r: r.randrange(1, 4))
    m = vc.int('m', 1, gen=lambda r: r.randrange(1, 4))
    gm = sym_gmix(vc, 'g', n * m, **NORMS)
    px = pix(vc, 'px', 1)
    p = px[0]
    s = sums_arr(vc, kind, n)
    s0 = s.copy()
    tau = vc.symarr('tau', n * m, dict(logtau={}, logdet={}))
    if kind == '_fluxonly':
        gsum = getattr(M, 'do_scratch_sums' + kind)(p, gm, s, m)
    else:
        gsum, L = getattr(M, 'do_scratch_sums' + kind)(p, gm, s, m, tau)
    j = vc.at('j', n)
    for f in ['gi'] + KINDS[kind][0]:
        vc.eq(f, s[f][j], vc.sum(m, lambda k: weight(vc, gm, j * m + k, p) * moment(f, gm, j * m + k, p)), scale=1)
    for f in ['pnew'] + KINDS[kind][1]:
        vc.eq('totals untouched', s[f][j], s0[f][j])
    vc.eq('sum over components', gsum, vc.sum(n, lambda a: vc.sum(m, lambda k: weight(vc, gm, a * m + k, p))), scale=1)
    vc.cover('end')


@unit('C19', cases=list(KINDS), samples=60)
def totals(vc, kind):
    """a pixel adds its value times the responsibilities, for any number of components"""
    M = EM()
    n = vc.int('n', 1, gen=lambda r: r.randrange(1, 4))
    s = sums_arr(vc, kind, n)
    s0 = s.copy()
    px = pix(vc, 'px', 1)
    g = vc.real('gtot', pos=True)
    getattr(M, 'do_sums' + kind)(s, px[0], g)
    j = vc.at('j', n)
    val = px['val'][0]
    vc.eq('flux', (s['pnew'][j] - s0['pnew'][j]) * g, val * s0['gi'][j], scale=1)
    for t in KINDS[kind][0]:
        vc.eq(PAIR[t], (s[PAIR[t]][j] - s0[PAIR[t]][j]) * g, val * s0[t][j], scale=1)
        vc.eq('responsibilities untouched', s[t][j], s0[t][j])
    vc.eq('responsibilities untouched', s['gi'][j], s0['gi'][j])
    getattr(M, 'clear_sums' + kind)(s)
    for f in ['gi', 'pnew'] + KINDS[kind][0] + KINDS[kind][1]:
        vc.eq('cleared', s[f][j], 0.0)
    vc.cover('end')


def conf(vc, **k):
    """configuration record"""
    c = dict(tol=1e-5, miniter=1, maxiter=1, sky=0.0, vary_sky=False)
    c.update(k)
    return c


def quiet(vc, M, kind):
    """what surrounds the sums: decided elsewhere"""
    vc.patch(M, 'gmix_set_norms', lambda g: None)
    if kind != '_fluxonly':
        vc.patch(M, 'set_logtau_logdet', lambda g, t: None)
    vc.patch(M, 'gmix_set_from_sums' + kind, lambda *a: None)


def run(vc, M, kind):
    return vc.code(getattr(M, 'em_run' + kind))


@unit('C19', cases=[(k, v) for k in KINDS for v in (0, 1)], samples=40, budget=120, cost=3)
def accumulate(vc, case):
    """one pass over any number of pixels: the totals of every component, the sky; pixels and mixture untouched"""
    kind, vary = case
    M = EM()
    n = vc.int('n', 1, gen=lambda r: r.randrange(1, 4))
    npix = vc.int('npix', 1, gen=lambda r: r.randrange(1, 5))
    gm = sym_gmix(vc, 'g', n, **NORMS)
    psf = sym_gmix(vc, 'psf', 1)
    g0 = sym_gmix(vc, 'g0', n)
    px = pix(vc, 'px', npix)
    s = sums_arr(vc, kind, n)
    sky = vc.real('sky', pos=True)
    keep, gkeep = px.copy(), gm.copy()
    vc.opaque_fexp()
    quiet(vc, M, kind)
    r = vc.call(run(vc, M, kind), conf(vc, sky=sky, vary_sky=bool(vary)), px, s, g0, psf, gm)
    if not r.ok:
        vc.true('only range and division errors', r.name in ('GMixRangeError', 'ZeroDivisionError'))
        return
    W = lambda j, i: weight(vc, gkeep, j, keep[i])
    R = lambda j, i: vc.quot(keep['val'][i], vc.sum(n, lambda k: W(k, i)) + sky) * W(j, i)
    j = vc.at('j', n)
    vc.eq('flux', s['pnew'][j], vc.sum(npix, lambda i: R(j, i)), scale=1)
    for t in KINDS[kind][0]:
        vc.eq(PAIR[t], s[PAIR[t]][j], vc.sum(npix, lambda i: R(j, i) * moment(t, gkeep, j, keep[i])), scale=1)
    numiter, fdiff, sk = r.value
    vc.true('one pass', numiter == 1)
    if vary:
        vc.eq('sky', sk * npix, vc.sum(npix, lambda i: sky * vc.quot(keep['val'][i], vc.sum(n, lambda k: W(k, i)) + sky)), scale=1)
    else:
        vc.eq('sky held', sk, sky)
    i = vc.at('i', npix)
    for f in ('u', 'v', 'area', 'val', 'ierr'):
        vc.eq('pixels untouched', px[f][i], keep[f][i])
    for f in ('p', 'row', 'col', 'irr', 'irc', 'icc', 'det', 'drr', 'drc', 'dcc', 'pnorm'):
        vc.eq('mixture untouched', gm[f][j], gkeep[f][j])
    vc.true('mixture to be normalised again', g0['norm_set'][j] == 0)
    vc.cover('end')


@unit('C19', cases=[(k, n) for k in KINDS for n in (1, 2, 3)], samples=20, bound='3 components', cost=2)
def flux_total(vc, case):
    """what one pass gives the components and the sky adds up to the image, any number of pixels"""
    kind, n = case
    M = EM()
    npix = vc.int('npix', 1, gen=lambda r: r.randrange(1, 5))
    f = vc.ufun('flux', lambda k, i: 1.0 + 0.3 * k + 0.1 * i)
    px = pix(vc, 'px', npix)
    gm = sym_gmix(vc, 'g', n, **NORMS)
    psf = sym_gmix(vc, 'psf', 1)
    g0 = sym_gmix(vc, 'g0', n)
    s = vc.np.zeros(n, dtype=[(x, 'f8') for x in ['gi', 'pnew'] + KINDS[kind][0] + KINDS[kind][1]])
    sky = vc.real('sky', pos=True)
    vc.opaque_fexp()
    quiet(vc, M, kind)
    if vc.symbolic:
        from pyvc.sym import mkint

        def scratch(p, g, sums, m, tau=None):
            t = 0.0
            for k in range(n):
                x = f(float(k), mkint(p.idx[0]))
                sums[k]['gi'] = x
                t = t + x
            return t if kind == '_fluxonly' else (t, 1.0)
        vc.patch(M, 'do_scratch_sums' + kind, scratch)
    r = vc.call(run(vc, M, kind), conf(vc, sky=sky, vary_sky=True), px, s, g0, psf, gm)
    if not r.ok:
        vc.true('only range and division errors', r.name in ('GMixRangeError', 'ZeroDivisionError'))
        return
    tot = 0.0
    for k in range(n):
        tot = tot + s['pnew'][k]
    vc.eq('total', tot + r.value[2] * npix, vc.sum(npix, lambda i: px['val'][i]), scale=10)
    vc.cover('end')


LOW = 1e-200


@unit('C19', cases=list(KINDS), samples=60, cost=2)
def maximisation(vc, kind):
    """each component gets the weighted flux, centre and covariance less that of the psf; what is held is kept"""
    M = EM()
    n = vc.int('n', 1, gen=lambda r: r.randrange(1, 4))
    g = sym_gmix(vc, 'g', n)
    conv = sym_gmix(vc, 'c', n)
    psf = sym_gmix(vc, 'psf', 1)
    s = sums_arr(vc, kind, n)
    g0, s0 = g.copy(), s.copy()
    if not vc.symbolic:
        # division by zero is an error in the compiled function only
        vc.assume(all(x != 0 for x in s0['pnew']))
    log = []
    prr, prc, pcc = vc.reals('prr prc pcc')
    vc.patch(M, 'gmix_get_moms', lambda x: (log.append('moments' if x is psf else 'other'), 0.0, prr, prc, pcc, 1.0)[0:0] or (0.0, 0.0, prr, prc, pcc, 1.0))
    vc.patch(M, 'gmix_convolve_fill', lambda a, b, c: log.append('convolve' if (a is conv and b is g and c is psf) else 'other'))
    vc.patch(M, 'gmix_set_norms', lambda a: log.append('normalise' if a is conv else 'other'))
    r = vc.call(vc.code(getattr(M, 'gmix_set_from_sums' + kind)), g, psf, conv, s)
    if not r.ok:
        vc.true('only division errors', r.name == 'ZeroDivisionError')
        return
    vc.true('convolved and normalised afterwards', log[-2:] == ['convolve', 'normalise'] and 'other' not in log)
    j = vc.at('j', n)
    p = s0['pnew'][j]
    vc.eq('flux', g['p'][j], p)
    held = KINDS[kind][1]
    if 'vsum' in held:
        vc.eq('row', g['row'][j] * p, s0['vsum'][j], scale=1)
        vc.eq('col', g['col'][j] * p, s0['usum'][j], scale=1)
    else:
        vc.eq('row held', g['row'][j], g0['row'][j], tol=0)
        vc.eq('col held', g['col'][j], g0['col'][j], tol=0)
    if 'v2sum' in held:
        if vc.case(p == 0):
            return
        rr, rc, cc = (s0['v2sum'][j] / p - prr, s0['uvsum'][j] / p - prc, s0['u2sum'][j] / p - pcc)
        if vc.case(rr < 0) or vc.case(cc < 0):
            vc.true('positive size instead', g['irr'][j] > 0)
            vc.eq('made round', g['irr'][j], g['icc'][j])
            vc.eq('made round', g['irc'][j], 0.0)
        elif vc.case(rr * cc - rc * rc < LOW):
            vc.eq('size kept', g['irr'][j] + g['icc'][j], rr + cc, scale=1)
            vc.eq('made round', g['irr'][j], g['icc'][j])
            vc.eq('made round', g['irc'][j], 0.0)
        else:
            vc.eq('irr', g['irr'][j], rr, scale=1)
            vc.eq('irc', g['irc'][j], rc, scale=1)
            vc.eq('icc', g['icc'][j], cc, scale=1)
    else:
        for f in ('irr', 'irc', 'icc'):
            vc.eq('covariance held', g[f][j], g0[f][j], tol=0)
    vc.eq('determinant', g['det'][j], g['irr'][j] * g['icc'][j] - g['irc'][j] * g['irc'][j], scale=1)
    for f in ['gi', 'pnew'] + KINDS[kind][0] + held:
        vc.eq('sums untouched', s[f][j], s0[f][j])
    vc.cover('end')


@unit('C19', cases=[1, 2, 3], samples=60, bound='3 components')
def moments_of_psf(vc, n):
    """flux-weighted second moments about the centre"""
    M = EM()
    g = sym_gmix(vc, 'g', n)
    r = vc.call(M.gmix_get_moms, g)
    P = sum(g['p'][k] for k in range(n))
    if not r.ok:
        vc.true('no flux', r.name == 'ZeroDivisionError' and P == 0)
        return
    if not vc.symbolic:
        vc.assume(abs(P) > 1e-2)
    row, col, rr, rc, cc, ps = r.value
    vc.eq('flux', ps, P)
    vc.eq('row', row * P, sum(g['p'][k] * g['row'][k] for k in range(n)), scale=1)
    vc.eq('col', col * P, sum(g['p'][k] * g['col'][k] for k in range(n)), scale=1)
    dr = lambda k: g['row'][k] - row
    dc = lambda k: g['col'][k] - col
    vc.eq('irr', rr * P, sum(g['p'][k] * (g['irr'][k] + dr(k) * dr(k)) for k in range(n)), scale=1)
    vc.eq('irc', rc * P, sum(g['p'][k] * (g['irc'][k] + dr(k) * dc(k)) for k in range(n)), scale=1)
    vc.eq('icc', cc * P, sum(g['p'][k] * (g['icc'][k] + dc(k) * dc(k)) for k in range(n)), scale=1)
    vc.cover('end')


@unit('C19', samples=60)
def fill_masked(vc):
    """pixels without weight get the model plus the sky, the others keep their value; any number of pixels"""
    M = EM()
    n = vc.int('n', 1, gen=lambda r: r.randrange(1, 8))
    px = vc.symarr('px', n, dict(u={}, v={}, area=dict(pos=True), val={}, fdiff={},
                                 ierr=dict(gen=lambda r: r.choice([0.0, 0.0, 1.0, 2.0]))))
    keep = px.copy()
    gm = sym_gmix(vc, 'g', 1, norm_set=dict(gen=lambda r: 1), drr=dict(pos=True), dcc=dict(pos=True))
    sky = vc.real('sky')
    if vc.symbolic:
        f = vc.ufun('value', lambda v, u, a: v + 2 * u)
        vc.patch(M, 'gmix_eval_pixel_fast', lambda g, p: f(p['v'], p['u'], p['area']))
    M.fill_zero_weight_pixels(gm, px, sky)
    i = vc.at('i', n)
    if vc.case(keep['ierr'][i] <= 0):
        vc.eq('model', px['val'][i], sky + M.gmix_eval_pixel_fast(gm, keep[i]))
    else:
        vc.eq('kept', px['val'][i], keep['val'][i], tol=0)
    for f in ('u', 'v', 'area', 'ierr'):
        vc.eq('kept', px[f][i], keep[f][i], tol=0)
    vc.cover('end')


def passes(vc, M, kind, vary, fill, elog, sky0, log):
    """stubs that record the order of what one pass does; each pass gives its own likelihood"""
    st = dict(k=0)

    def norms(g):
        log.append(('norms', g))

    def clear(s):
        log.append(('clear', s))

    def tau(g, t):
        log.append(('tau', g))

    def fillz(g, p, sky):
        log.append(('fill', g, p, sky))

    def scratch(p, g, s, m, t=None):
        log.append(('scratch', g, s, m, p))
        st['n'] = st.get('n', 0)
        return elog(st['k'], p, log)

    def sums(s, p, tot):
        log.append(('sums', s, p, tot))

    def setg(g, psf, conv, s):
        log.append(('set', g, psf, conv, s))
        st['k'] += 1
    vc.patch(M, 'gmix_set_norms', norms)
    vc.patch(M, 'clear_sums' + kind, clear)
    vc.patch(M, 'fill_zero_weight_pixels', fillz)
    vc.patch(M, 'do_scratch_sums' + kind, scratch)
    vc.patch(M, 'do_sums' + kind, sums)
    vc.patch(M, 'gmix_set_from_sums' + kind, setg)
    if kind != '_fluxonly':
        vc.patch(M, 'set_logtau_logdet', tau)
    return st


@unit('C19', cases=[(k, v, f, mi) for k in ('', '_fixcen', '_fixcov') for v, f in ((1, 1), (0, 0), (1, 0), (0, 1)) for mi in (1, 2)],
      samples=60, cost=2, bound='3 passes, 2 pixels, 1 component')
def control(vc, case):
    """every pass clears, measures and updates with the current mixture and sky; the last is the first at or beyond the
    minimum number whose likelihood changed by less than the tolerance"""
    kind, vary, fill, miniter = case
    M = EM()
    tol = vc.real('tol', pos=True)
    sky0 = vc.real('sky', pos=True)
    gs = [[vc.real('g%d%d' % (k, i), pos=True) for i in range(2)] for k in range(3)]
    ls = [[vc.real('l%d%d' % (k, i)) for i in range(2)] for k in range(3)]
    vs = [vc.real('v%d' % i, pos=True) for i in range(2)]
    px = vc.np.zeros(2, dtype=[(f, 'f8') for f in ('u', 'v', 'area', 'val', 'ierr', 'fdiff')])
    for i in range(2):
        px['val'][i] = vs[i]
        px['u'][i] = float(i)
    gm, psf, g0 = sym_gmix(vc, 'g', 1), sym_gmix(vc, 'psf', 1), sym_gmix(vc, 'g0', 1)
    s = sums_arr(vc, kind, 1)
    log = []
    which = lambda p: 0 if p['u'] == 0.0 else 1
    st = passes(vc, M, kind, vary, fill, lambda k, p, lg: (gs[k][which(p)], ls[k][which(p)]), sky0, log)
    r = vc.call(run(vc, M, kind), conf(vc, sky=sky0, vary_sky=bool(vary), tol=tol, miniter=miniter, maxiter=3),
                px, s, g0, psf, gm, fill_zero_weight=bool(fill))
    L = [ls[k][0] + ls[k][1] for k in range(3)]
    if not r.ok:
        vc.true('range error', r.name == 'GMixRangeError')
        vc.true('no likelihood', vc.Or(*[x == 0 for x in L[miniter - 1:st['k']]]))
        return
    numiter, fdiff, sky = r.value
    vc.true('passes', numiter == st['k'] and miniter <= numiter <= 3)
    # the sequence of what happened
    want = [('norms', gm)]
    sk = sky0
    for k in range(numiter):
        want += [('clear', s), ('tau', gm)]
        if fill:
            want += [('fill', gm, px, sk)]
        ssum = 0.0
        for i in range(2):
            want += [('scratch', gm, s, 1, None), ('sums', s, None, gs[k][i] + sk)]
            ssum = ssum + sk * vs[i] / (gs[k][i] + sk)
        want += [('set', g0, psf, gm, s)]
        if vary:
            sk = ssum / 2
    vc.true('steps', [x[0] for x in log] == [x[0] for x in want])
    for a, b in zip(log, want):
        for x, y in zip(a[1:], b[1:]):
            if y is None:
                continue
            if a[0] in ('fill', 'sums') and y is b[-1]:
                vc.eq('sky used', x, y)
            elif a[0] == 'scratch' and isinstance(y, int):
                vc.true('psf gaussians', x == 1)
            else:
                vc.true('acts on the right mixture', x is y)
    vc.eq('sky', sky, sk)
    last = -9999.9e9
    for k in range(numiter):
        if k + 1 >= miniter:
            d = abs((L[k] - last) / L[k])
            if k + 1 == numiter:
                vc.eq('fraction', fdiff, d)
                if numiter < 3:
                    vc.true('converged', d < tol)
            else:
                vc.true('went on', vc.Not(d < tol))
        last = L[k]
    vc.cover('end')


CLS = {'': 'EMFitter', '_fixcen': 'EMFitterFixCen', '_fixcov': 'EMFitterFixCov', '_fluxonly': 'EMFitterFluxOnly'}


def image_obs(vc, n, psf, zero, keepzero=True):
    """a row of pixels, a psf with a mixture of any flux"""
    import ngmix
    im = vc.mat('im', (1, n))
    w = vc.np.ones((1, n))
    for i in range(n):
        w[0, i] = vc.real('w%d' % i, pos=True)
    if zero:
        w[0, n - 1] = 0.0
    jac = ngmix.DiagonalJacobian(row=0.0, col=0.5, scale=vc.real('scale', pos=True))
    po = pg = None
    if psf:
        pg = ngmix.GMix(pars=[vc.real('pf', pos=True), vc.real('pr'), vc.real('pc'), vc.real('prr', pos=True), 0.0, vc.real('pcc', pos=True)])
        po = ngmix.Observation(vc.np.ones((1, 2)), weight=vc.np.ones((1, 2)), jacobian=jac, gmix=pg)
    return ngmix.Observation(im, weight=w, jacobian=jac, psf=po, ignore_zero_weight=not keepzero), pg


def full(gm):
    return [x for x in gm.get_full_pars()]


@unit('C19', cases=[(k, s, p, z) for k in ('', '_fluxonly') for s in (0, 1) for p in (0, 1) for z in (0, 1) if s or not z]
      + [('_fixcen', 1, 1, 0), ('_fixcov', 1, 1, 0)], samples=20, bound='3 pixels, 1 component (the kernels are proved for any number)')
def fitter(vc, case):
    """what the fitter hands to the kernel and what it makes of the outcome"""
    import ngmix
    from ngmix.em import em as E
    from ngmix.gexceptions import GMixRangeError
    kind, withsky, psf, zero = case
    n = 3
    obs, pg = image_obs(vc, n, psf, zero)
    im0 = [obs.image[0, i] for i in range(n)]
    guess = ngmix.GMix(pars=[vc.real('p', pos=True), vc.real('r'), vc.real('c'), vc.real('rr', pos=True), 0.0, vc.real('cc', pos=True)])
    g0 = full(guess)
    pg0 = full(obs.psf.gmix) if psf else None
    maxiter, miniter, tol = 7, 3, vc.real('tol', pos=True)
    cls = getattr(E, CLS[kind])
    # the four default runners
    f = cls(maxiter=maxiter, miniter=miniter, tol=tol, vary_sky=bool(zero))
    vc.true('kernel', f._runner is getattr(E, 'em_run' + kind))
    sky = vc.real('sky') if withsky else None
    sky1 = vc.real('sky1')
    fd = vc.real('fd')
    seen = {}
    new = [vc.real('np', pos=True), vc.real('nr'), vc.real('nc'), vc.real('nrr', pos=True), 0.0, vc.real('ncc', pos=True)]
    for what in ('ok', 'ok6', 'maxit', 'range', 'zero'):
        def runner(conf, pixels, sums, gm, gpsf, gconv, fill_zero_weight=False):
            seen.update(conf=conf, pixels=pixels, sums=sums, gm=gm, psf=gpsf, conv=gconv, fill=fill_zero_weight)
            seen['gm0'] = [gm[x][0] for x in ('p', 'row', 'col', 'irr', 'irc', 'icc')]
            seen['conv0'] = [gconv[x][0] for x in ('p', 'row', 'col', 'irr', 'irc', 'icc')]
            seen['val'] = [pixels['val'][i] for i in range(pixels.size)]
            for x, v in zip(('p', 'row', 'col', 'irr', 'irc', 'icc'), new):
                gm[x][0] = v
                gconv[x][0] = 2 * v
            pixels['val'][0] = 0.0
            if what == 'range':
                raise GMixRangeError('no')
            if what == 'zero':
                raise ZeroDivisionError('no')
            return {'ok': 3, 'ok6': 6, 'maxit': 7}[what], fd, sky1
        vc.put(f, '_runner', runner)
        r = vc.call(f.go, obs, guess, sky)
        vc.true('went', r.ok)
        res = r.value
        # what the kernel was given
        c = seen['conf']
        vc.eq('tolerance', c['tol'], tol)
        vc.true('limits', c['maxiter'] == maxiter and c['miniter'] == miniter and bool(c['vary_sky']) == bool(zero))
        vc.true('one set of sums per component', seen['sums'].size == 1)
        vc.eq('starts from the guess', seen['gm0'], g0)
        if psf:
            P = seen['psf']
            vc.eq('psf of unit flux', P['p'][0], 1.0)
            for a, b in zip(('row', 'col', 'irr', 'irc', 'icc'), pg0[1:]):
                vc.eq('psf', P[a][0], b)
            vc.eq('convolved', seen['conv0'], [g0[0], g0[1], g0[2], g0[3] + pg0[3], g0[4] + pg0[4], g0[5] + pg0[5]], scale=1)
        else:
            vc.eq('no psf', [seen['psf'][x][0] for x in ('p', 'irr', 'irc', 'icc')], [1.0, 0.0, 0.0, 0.0])
            vc.eq('convolved', seen['conv0'], g0, scale=1)
        if withsky:
            vc.eq('sky', c['sky'], sky)
            vc.eq('image', seen['val'], im0)
            vc.true('masked pixels are filled', bool(seen['fill']) == bool(zero))
        else:
            lo, hi = im0[0], im0[0]
            for x in im0[1:]:
                if vc.case(x < lo):
                    lo = x
                if vc.case(x > hi):
                    hi = x
            vc.eq('sky', c['sky'], 0.001 * (hi - lo) - lo, scale=1)
            vc.eq('image above the sky', seen['val'], [x + c['sky'] for x in im0], scale=1)
        # the inputs are as they were
        vc.eq('guess untouched', full(guess), g0, tol=0)
        vc.eq('image untouched', [obs.image[0, i] for i in range(n)], im0, tol=0)
        vc.eq('pixels untouched', [x for x in obs.pixels['val']], im0, tol=0)
        if psf:
            vc.eq('psf untouched', full(obs.psf.gmix), pg0, tol=0)
        # the outcome
        if what in ('range', 'zero'):
            vc.true('flagged', res['flags'] == ngmix.flags.EM_RANGE_ERROR)
            vc.true('no mixture', not res.has_gmix() and vc.call(res.get_gmix).name == 'RuntimeError'
                    and vc.call(res.get_convolved_gmix).name == 'RuntimeError')
            continue
        vc.true('flagged only when the limit was reached', res['flags'] == (ngmix.flags.EM_MAXITER if what == 'maxit' else 0))
        vc.true('passes', res['numiter'] == {'ok': 3, 'ok6': 6, 'maxit': 7}[what])
        vc.eq('fraction', res['fdiff'], fd)
        vc.eq('sky', res['sky'], sky1)
        vc.eq('mixture', full(res.get_gmix()), new)
        vc.eq('convolved mixture', full(res.get_convolved_gmix()), [2 * x for x in new])
        res.get_gmix().set_flux(3.0)
        vc.eq('copies', full(res.get_gmix()), new)
    for bad in (None, obs.image, ngmix.ObsList(), 3):
        r = vc.call(f.go, bad, guess, sky)
        vc.true('refused', not r.ok and r.name == 'ValueError')
    vc.cover('end')


@unit('C19', samples=5)
def choice(vc):
    """run_em uses the fitter asked for"""
    from ngmix.em import em as E
    import ngmix
    for kw, c in (({}, 'EMFitter'), ({'fixcen': True}, 'EMFitterFixCen'), ({'fixcov': True}, 'EMFitterFixCov'), ({'fluxonly': True}, 'EMFitterFluxOnly')):
        C = getattr(E, c)
        hit = []

        def go(self, obs, guess, sky=None):
            hit.append((type(self), self.miniter, self.maxiter, self.tol, self.vary_sky, obs, guess, sky))
            return 'r'
        old = E.EMFitter.go
        E.EMFitter.go = go
        try:
            r = E.run_em('o', 'g', sky=3.0, miniter=4, maxiter=5, tol=0.25, vary_sky=True, **kw)
        finally:
            E.EMFitter.go = old
        vc.true('fitter', r == 'r' and hit == [(C, 4, 5, 0.25, True, 'o', 'g', 3.0)])
    vc.cover('end')


@unit('C19', cases=[(k, npsf, z) for k in KINDS for npsf in (0, 1, 2) for z in (0, 1)], prove=False, samples=12,
      bound='random images (the parts are proved for any)')
def one_pass(vc, case):
    """one pass of the compiled kernel against the formulas"""
    import math
    import numpy as np
    import ngmix
    from ngmix.em import em as E
    kind, npsf, zero = case
    vc.opaque_fexp()
    n = vc.int('n', 1, 3)
    ny, nx = vc.int('ny', 3, 7), vc.int('nx', 3, 7)
    jac = ngmix.DiagonalJacobian(row=(ny - 1) / 2 + 0.2, col=(nx - 1) / 2 - 0.1, scale=0.9)
    im = np.array([[vc.real('im%d_%d' % (i, j), pos=True) for j in range(nx)] for i in range(ny)])
    w = np.ones(im.shape)
    if zero:
        w[1, 1] = 0.0
    po = None
    if npsf:
        pp = []
        for k in range(npsf):
            pp += [1.0 + k, 0.0, 0.0, 0.4 + 0.1 * k, 0.05, 0.3 + 0.2 * k]
        po = ngmix.Observation(np.ones((2, 2)), gmix=ngmix.GMix(pars=pp))
    obs = ngmix.Observation(im, weight=w, jacobian=jac, psf=po, ignore_zero_weight=False)
    pars = []
    for k in range(n):
        pars += [vc.real('p%d' % k, pos=True), vc.real('r%d' % k), vc.real('c%d' % k),
                 0.5 + vc.real('rr%d' % k, pos=True), 0.1, 0.5 + vc.real('cc%d' % k, pos=True)]
    guess = ngmix.GMix(pars=pars)
    sky = vc.real('sky', pos=True)
    res = getattr(E, CLS[kind])(miniter=1, maxiter=1, vary_sky=True).go(obs, guess, sky)
    psf = ngmix.GMix(pars=pp) if npsf else ngmix.GMixModel([0, 0, 0, 0, 0, 1.0], 'gauss')
    psf.set_flux(1.0)
    conv = guess.convolve(psf)
    conv.set_norms()
    d = conv.get_data()
    m = psf.get_data().size
    px = obs.pixels.copy()
    tot = {f: [0.0] * n for f in ('gi', 'tvsum', 'tusum', 'tv2sum', 'tuvsum', 'tu2sum')}
    ss = 0.0
    for p in px:
        val = p['val']
        ws = [weight(vc, d, k, p) for k in range(n * m)]
        gt = sum(ws) + sky
        if p['ierr'] <= 0:
            val = gt
        ss += sky * val / gt
        for k in range(n * m):
            for f in tot:
                tot[f][k // m] += val / gt * ws[k] * moment(f, d, k, p)
    if not all(abs(t) > 1e-8 for t in tot['gi']):
        return
    vc.true('flag', res['flags'] == ngmix.flags.EM_MAXITER)
    vc.eq('sky', res['sky'], ss / px.size, scale=1)
    g = res.get_gmix().get_data()
    pd = psf.get_data()
    mom = {a: sum(pd['p'] * pd[a]) for a in ('irr', 'irc', 'icc')}
    for k in range(n):
        p = tot['gi'][k]
        vc.eq('flux', g['p'][k], p, scale=1e-3)
        if tot and 'vsum' in KINDS[kind][1]:
            vc.eq('row', g['row'][k], tot['tvsum'][k] / p, scale=1)
            vc.eq('col', g['col'][k], tot['tusum'][k] / p, scale=1)
        else:
            vc.eq('row', g['row'][k], guess.get_data()['row'][k], tol=0)
            vc.eq('col', g['col'][k], guess.get_data()['col'][k], tol=0)
        if 'v2sum' in KINDS[kind][1]:
            rr, rc, cc = [tot[t][k] / p - mom[a] for t, a in (('tv2sum', 'irr'), ('tuvsum', 'irc'), ('tu2sum', 'icc'))]
            if rr < 0 or cc < 0:
                vc.true('positive instead', g['irr'][k] > 0 and g['icc'][k] > 0)
            elif rr * cc - rc * rc > 1e-10:
                vc.eq('irr', g['irr'][k], rr, scale=1)
                vc.eq('irc', g['irc'][k], rc, scale=1)
                vc.eq('icc', g['icc'][k], cc, scale=1)
        else:
            for a in ('irr', 'irc', 'icc'):
                vc.eq(a, g[a][k], guess.get_data()[a][k], tol=0)
    c2 = res.get_gmix().convolve(psf)
    vc.eq('convolved mixture', full(res.get_convolved_gmix()), full(c2), scale=1)
