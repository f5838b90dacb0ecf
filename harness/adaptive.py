"""Adaptive moments."""
from pyvc.unit import unit
from harness.gmix_eval import sym_gmix, pix, NORMS, chi2_of, GF
from harness.momres import error_contract, ratio_err

LOW = 1e-200


def A():
    import ngmix.admom.admom_nb as m
    return m


def result(vc, fill=True):
    """a result structure with arbitrary contents"""
    import ngmix.admom.admom as m
    r = vc.np.zeros(1, dtype=vc.np.dtype(m._admom_result_dtype, align=True))
    if fill:
        for i in range(7):
            r['sums'][0, i] = vc.real('s%d' % i)
            r['F'][0, i] = vc.real('F%d' % i)
            for j in range(7):
                r['sums_cov'][0, i, j] = vc.real('c%d%d' % (i, j))
        r['wsum'][0] = vc.real('wsum')
        r['npix'][0] = vc.int('npix', 0)
    return r


def weight(vc, g, p):
    c = chi2_of(g, 0, p['v'], p['u'])
    inside = vc.And(c < 25, c >= 0)
    if not vc.symbolic:
        return g['pnorm'][0] * vc.fexp(-0.5 * c) * p['area'] if inside else 0.0
    return vc.ite(inside, g['pnorm'][0] * vc.fexp(-0.5 * c) * p['area'], 0.0)


@unit('C20', samples=40)
def centre_sums(vc):
    """weighted first moments and flux added up over any number of pixels"""
    M = A()
    vc.opaque_fexp()
    n = vc.int('n', 0, gen=lambda r: r.randrange(0, 8))
    g, px = sym_gmix(vc, 'g', 1, **NORMS), pix(vc, 'px', n)
    res = result(vc)
    s = [res['sums'][0, i] for i in range(7)]
    c = res['sums_cov'][0].copy()
    np0, ws = res['npix'][0], res['wsum'][0]
    M.admom_censums(g, px, res[0])
    wd = lambda k: weight(vc, g, px[k]) * px['val'][k]
    vc.eq('row', res['sums'][0, 0], s[0] + vc.sum(n, lambda k: wd(k) * px['v'][k]), scale=1)
    vc.eq('col', res['sums'][0, 1], s[1] + vc.sum(n, lambda k: wd(k) * px['u'][k]), scale=1)
    vc.eq('flux', res['sums'][0, 5], s[5] + vc.sum(n, wd), scale=1)
    for i in (2, 3, 4, 6):
        vc.eq('other sums kept', res['sums'][0, i], s[i], tol=0)
    vc.eq('covariance kept', res['sums_cov'][0], c, tol=0)
    vc.eq('weight kept', res['wsum'][0], ws, tol=0)
    vc.true('pixels', res['npix'][0] == np0 + n)
    vc.cover('end')


@unit('C20', samples=40, cost=4)
def moment_sums(vc):
    """weighted moments about the centre of the weight and their covariance, any number of pixels"""
    M = A()
    vc.opaque_fexp()
    n = vc.int('n', 1, gen=lambda r: r.randrange(1, 8))
    g, px = sym_gmix(vc, 'g', 1, **NORMS), pix(vc, 'px', n)
    res = result(vc)
    s = [res['sums'][0, i] for i in range(7)]
    c = [[res['sums_cov'][0, i, j] for j in range(7)] for i in range(7)]
    np0, ws = res['npix'][0], res['wsum'][0]
    M.admom_momsums(g, px, res[0])

    def F(i, k):
        p = px[k]
        v, u = p['v'] - g['row'][0], p['u'] - g['col'][0]
        if i == 6:
            x = chi2_of(g, 0, p['v'], p['u'])
            return x * x
        return [p['v'], p['u'], u * u - v * v, 2 * u * v, u * u + v * v, 1.0][i]
    w = lambda k: weight(vc, g, px[k])
    for i in range(7):
        vc.eq('sums', res['sums'][0, i], s[i] + vc.sum(n, lambda k: w(k) * px['val'][k] * F(i, k)), scale=1)
        for j in range(7):
            vc.eq('covariance', res['sums_cov'][0, i, j],
                  c[i][j] + vc.sum(n, lambda k: w(k) * w(k) * F(i, k) * F(j, k) * vc.quot(1.0, px['ierr'][k] * px['ierr'][k])), scale=1)
    vc.eq('sum of weights', res['wsum'][0], ws + vc.sum(n, w), scale=1)
    vc.true('pixels', res['npix'][0] == np0 + n)
    vc.cover('end')


@unit('C20', samples=80)
def deweight(vc):
    """inverse covariances subtract; a determinant that is too small flags and leaves the weight alone"""
    import ngmix
    M = A()
    g = vc.np.zeros(1, dtype=[(f, 'f8') for f in GF])
    W = vc.reals('wrr wrc wcc')
    det0 = vc.real('det')
    g['irr'], g['irc'], g['icc'], g['det'] = W[0], W[1], W[2], det0
    g['row'], g['col'] = vc.reals('row col')
    cen = g['row'][0], g['col'][0]
    I = vc.reals('irr irc icc')
    res = result(vc, fill=False)
    M.deweight_moments(g, I[0], I[1], I[2], res[0])
    dm = I[0] * I[2] - I[1] * I[1]
    dw = W[0] * W[2] - W[1] * W[1]
    vc.eq('centre kept', [g['row'][0], g['col'][0]], cen, tol=0)
    flagged = vc.case(vc.Not(res['flags'][0] == 0))
    if flagged:
        vc.true('flag', res['flags'][0] == ngmix.flags.LOW_DET)
        for f, x in zip(('irr', 'irc', 'icc', 'det'), W + [det0]):
            vc.eq('weight kept', g[f][0], x, tol=0)
    if vc.case(vc.Or(dm <= LOW, dw <= LOW)):
        vc.true('flagged', flagged)
        vc.cover('low')
        return
    # inverse matrices
    N = [vc.quot(I[2], dm) - vc.quot(W[2], dw), vc.quot(W[1], dw) - vc.quot(I[1], dm), vc.quot(I[0], dm) - vc.quot(W[0], dw)]
    dn = N[0] * N[2] - N[1] * N[1]
    if vc.case(dn <= LOW):
        vc.true('flagged', flagged)
        return
    vc.true('not flagged', vc.Not(flagged))
    vc.eq('irr', g['irr'][0] * dn, N[2], scale=1e-6)
    vc.eq('icc', g['icc'][0] * dn, N[0], scale=1e-6)
    vc.eq('irc', g['irc'][0] * dn, -N[1], scale=1e-6)
    vc.eq('det', g['det'][0], g['irr'][0] * g['icc'][0] - g['irc'][0] * g['irc'][0], scale=1)
    vc.cover('end')


@unit('C20', samples=5)
def clear(vc):
    """every sum starts at zero"""
    M = A()
    res = result(vc)
    res['flags'][0] = 4
    M.clear_result(res[0])
    vc.true('pixels', res['npix'][0] == 0)
    vc.true('weights', res['wsum'][0] == 0)
    for i in range(7):
        vc.true('sums', res['sums'][0, i] == 0)
        for j in range(7):
            vc.true('covariance', res['sums_cov'][0, i, j] == 0)
    for i in range(6):
        vc.isnan('pars', res['pars'][0, i])
    vc.isnan('rho4', res['rho4'][0])
    vc.true('flags kept', res['flags'][0] == 4)
    vc.cover('end')


def weight_data(vc):
    g = vc.np.zeros(1, dtype=[(f, 'f8') for f in GF])
    g['irr'], g['irc'], g['icc'], g['det'] = vc.reals('irr irc icc det')
    g['row'], g['col'] = vc.reals('row col')
    return g


def config(vc, maxiter, cenonly):
    import ngmix.admom.admom as m
    c = vc.np.zeros(1, dtype=vc.np.dtype(m._admom_conf_dtype, align=True))
    c['maxiter'] = maxiter
    c['shiftmax'], c['etol'], c['Ttol'] = vc.reals('shiftmax etol Ttol', pos=True)
    c['cenonly'] = cenonly
    return c


def stand_ins(vc, M, log, px, g, res, value):
    """the callees, whose contracts are the units above: any sums"""
    import ngmix
    rec = lambda: [g[f][0] for f in ('row', 'col', 'irr', 'irc', 'icc', 'det')]

    def norms(wt):
        vc.true('norms of the weight', wt is g)
        vc.le('determinant', LOW, g['det'][0])
        log.append(('norms', rec()))

    def clear(r):
        vc.true('clears the result', r['sums'] is not None)
        for i in range(7):
            res['sums'][0, i] = 0.0
        log.append(('clear', rec()))

    def sums(kind, which):
        def f(wt, pixels, r):
            vc.true('weight and pixels', wt is g and pixels is px)
            v = dict((i, value('%s%d' % (kind, i))) for i in which)
            for i in which:
                r['sums'][i] = v[i]
            log.append((kind, rec(), v))
        return f

    def dew(wt, irr, irc, icc, r):
        vc.true('deweights the weight', wt is g)
        log.append(('deweight', rec(), (irr, irc, icc)))
        if vc.case(value('dflag') > 0):
            r['flags'] = ngmix.flags.LOW_DET
        else:
            for f in ('irr', 'irc', 'icc', 'det'):
                g[f][0] = value('w' + f)
    vc.patch(M, 'gmix_set_norms', norms)
    vc.patch(M, 'clear_result', clear)
    vc.patch(M, 'admom_censums', sums('cen', (0, 1, 5)))
    vc.patch(M, 'admom_momsums', sums('mom', range(7)))
    vc.patch(M, 'deweight_moments', dew)


def outcome(vc, c, g, res, log, orig, old):
    """what a flag or no flag means, from the events of the last pass; old: shape of the pass before (None: none)"""
    import ngmix
    F = ngmix.flags
    flags = res['flags'][0]
    ev = [x[0] for x in log]
    if vc.case(flags == F.MAXITER):
        vc.true('limit reached', res['numiter'][0] == c['maxiter'][0])
        return
    vc.true('limit not reached', res['numiter'][0] < c['maxiter'][0])
    if not ev:
        vc.true('low determinant', flags == F.LOW_DET)
        vc.lt('low determinant', g['det'][0], LOW)
        return
    vc.true('order', ev == ['norms', 'clear', 'cen', 'clear', 'mom', 'deweight'][:len(ev)] and len(ev) != 4)
    cen = [x for x in log if x[0] == 'cen'][0]
    if vc.case(cen[2][5] <= 0):
        vc.true('flux', flags == F.NONPOS_FLUX and len(ev) == 3)
        return
    vc.eq('row', g['row'][0] * cen[2][5], cen[2][0])
    vc.eq('col', g['col'][0] * cen[2][5], cen[2][1])
    d = [abs(g['row'][0] - orig[0]), abs(g['col'][0] - orig[1])]
    if vc.case(vc.Or(d[0] > c['shiftmax'][0], d[1] > c['shiftmax'][0])):
        vc.true('shift', flags == F.CEN_SHIFT and len(ev) == 3)
        return
    mom = [x for x in log if x[0] == 'mom'][0]
    s = mom[2]
    if vc.case(s[5] <= 0):
        vc.true('flux', flags == F.NONPOS_FLUX and len(ev) == 5)
        return
    if vc.case(s[4] <= 0):
        vc.true('size', flags == F.NONPOS_SIZE and len(ev) == 5)
        return
    if len(ev) == 6:
        vc.true('deweighting failed', flags == F.LOW_DET)
        return
    vc.true('converged', flags == 0)
    w = dict(zip(('row', 'col', 'irr', 'irc', 'icc', 'det'), mom[1]))
    p = res['pars'][0]
    for nm, a, b in zip(('row', 'col', 'M1', 'M2', 'T', 'flux'), p,
                        (w['row'], w['col'], w['icc'] - w['irr'], 2 * w['irc'], w['icc'] + w['irr'], 1.0)):
        vc.eq(nm, a, b)
    vc.eq('rho4', res['rho4'][0] * s[5], s[6])
    for i in range(7):
        vc.eq('sums', res['sums'][0, i], s[i], tol=0)
    if old is not None:
        vc.true('a pass before', len(old) == 7)
        if len(old) == 7:
            # e1 = M1/T, e2 = M2/T of this pass and the one before
            for k in (2, 3):
                vc.lt('ellipticity', abs(s[k] * old[4] - old[k] * s[4]), c['etol'][0] * s[4] * old[4])
            vc.lt('size', abs(s[4] * old[5] - old[4] * s[5]), c['Ttol'][0] * old[4] * s[5])


@unit('C20', cases=[0, 1], real=False)
def any_pass(vc, cenonly):
    """flags and result of the last pass, after any number of passes"""
    M = A()
    g, px, res = weight_data(vc), pix(vc, 'px', 1), result(vc, fill=False)
    c = config(vc, vc.int('maxiter', 1), bool(cenonly))
    orig = g['row'][0], g['col'][0]
    log = []
    stand_ins(vc, M, log, px, g, res, vc.fresh)
    vc.code(M.admom)(c, g, px, res)
    outcome(vc, c, g, res, log, orig, None)
    vc.cover('end')


@unit('C20', cases=[0, 1], samples=400, bound='4 passes', cost=3)
def passes(vc, cenonly):
    """an unflagged result: shape and size changed by less than the tolerances between the last two passes"""
    M = A()
    g, px, res = weight_data(vc), pix(vc, 'px', 1), result(vc, fill=False)
    c = config(vc, 4, bool(cenonly))
    orig = g['row'][0], g['col'][0]
    log = []
    count = [0]

    def value(nm):
        count[0] += 1
        return vc.real('%s_%d' % (nm, count[0]))
    stand_ins(vc, M, log, px, g, res, value)
    vc.code(M.admom)(c, g, px, res)
    # passes
    cut = [k for k, x in enumerate(log) if x[0] == 'norms'] + [len(log)]
    ps = [log[a:b] for a, b in zip(cut, cut[1:])]
    vc.true('passes', len(ps) in (res['numiter'][0], res['numiter'][0] - 1))
    for q in ps[:-1]:
        vc.true('each pass is complete', [x[0] for x in q] == ['norms', 'clear', 'cen', 'clear', 'mom'] + ([] if cenonly else ['deweight']))
        if not cenonly:
            s, i = q[4][2], q[5][2]
            vc.eq('moments deweighted', [i[0] * s[5] * 2, i[1] * s[5] * 2, i[2] * s[5] * 2], [s[4] - s[2], s[3], s[4] + s[2]])
    last = ps[-1] if len(ps) == res['numiter'][0] else []
    before = [] if len(ps) < 2 else [x[2] for x in ps[-2] if x[0] == 'mom'][0]
    outcome(vc, c, g, res, last, orig, before)
    vc.cover('end')


@unit('C20', samples=150)
def summary(vc):
    """flags, fluxes, sizes, shapes and errors from the final sums"""
    import ngmix
    import ngmix.admom.admom as m
    F = ngmix.flags
    error_contract(vc)
    a = result(vc, fill=False)
    fl = 0
    if vc.case(vc.bool('failed')):
        fl = [F.NONPOS_FLUX, F.LOW_DET, F.MAXITER, F.CEN_SHIFT][0 if vc.case(vc.bool('b0')) else 1 if vc.case(vc.bool('b1')) else 2]
    a['flags'][0] = fl
    a['numiter'][0], a['npix'][0] = 7, 11
    ws = vc.real('ws', pos=True)
    a['wsum'][0] = ws
    s = vc.vec('s', 7)
    if fl == 0:
        vc.assume(s[5] > 0)
        vc.assume(s[4] > 0)
    c = vc.mat('c', (7, 7))
    for i in range(7):
        for j in range(i):
            c[i, j] = c[j, i]
    if vc.case(vc.bool('usable')):
        for i in range(7):
            c[i, i] = abs(c[i, i])
    p = vc.vec('p', 6)
    for i in range(7):
        a['sums'][0, i] = s[i]
        for j in range(7):
            a['sums_cov'][0, i, j] = c[i, j]
    for i in range(6):
        a['pars'][0, i] = p[i]
    rho = vc.real('rho')
    a['rho4'][0] = rho
    area, norm = vc.real('area', pos=True), vc.real('norm', pos=True)
    r = m.get_result(a, area, norm)
    vc.eq('sums kept', r['sums'], s, tol=0)
    vc.eq('covariance kept', r['sums_cov'], c, tol=0)
    vc.true('counts', r['numiter'] == 7 and r['npix'] == 11)
    vc.eq('sum of weights', [r['wsum'], r['sums_norm']], [ws, ws], tol=0)
    for pre in ('', 'flux_', 'T_', 'rho4_'):
        vc.true('flags in words', r[pre + 'flagstr'] == F.get_flags_str(r[pre + 'flags']))
    posF, posT, pos4 = vc.case(c[5, 5] > 0), vc.case(c[4, 4] > 0), vc.case(c[6, 6] > 0)
    pos2, pos3 = vc.case(c[2, 2] > 0), vc.case(c[3, 3] > 0)
    bad = not (posF and posT and pos4 and pos2 and pos3)
    if fl != 0:
        vc.true('flag kept', r['flags'] == fl | (F.NONPOS_VAR if bad else 0))
        vc.true('all flagged', r['flux_flags'] == fl and r['T_flags'] == fl and r['rho4_flags'] == fl)
        for k in ('flux', 'flux_err', 'flux_mean', 's2n', 'T', 'T_err', 'rho4', 'rho4_err', 'e1', 'e2', 'e1err', 'e2err'):
            vc.isnan(k, r[k])
        for k in range(2):
            vc.isnan('e', r['e'][k])
            vc.isnan('e_err', r['e_err'][k])
        vc.cover('failed')
        return
    T = p[4]
    vc.eq('T', r['T'], T, tol=0)
    vc.eq('mean flux', r['flux_mean'] * ws, s[5])
    vc.eq('flux parameter', r['pars'][5], r['flux_mean'], tol=0)
    for k in range(5):
        vc.eq('parameters', r['pars'][k], p[k], tol=0)
    okT = vc.case(T > LOW)
    if okT:
        vc.eq('flux', r['flux'] * area * norm * ws, s[5])
        if posF:
            vc.eq('flux_err', (r['flux_err'] * area * norm * ws) ** 2, c[5, 5])
            vc.le('flux_err', 0, r['flux_err'])
            vc.eq('s2n', r['s2n'] * r['flux_err'], r['flux'])
            vc.true('flux flags', r['flux_flags'] == 0)
        else:
            vc.true('flux flags', r['flux_flags'] == F.NONPOS_VAR)
            vc.isnan('flux_err', r['flux_err'])
    else:
        vc.true('flux flags', r['flux_flags'] == F.NONPOS_SIZE)
        vc.isnan('flux', r['flux'])
    for nm, k, ok in (('T', 4, posT), ('rho4', 6, pos4)):
        if ok and posF:
            vc.true('%s flags' % nm, r[nm + '_flags'] == 0)
            ratio_err(vc, nm + '_err', r[nm + '_err'] / 4, s[k], s[5], c[k, k], c[5, 5], c[k, 5])
        else:
            vc.true('%s flags' % nm, r[nm + '_flags'] == F.NONPOS_VAR)
            vc.isnan(nm + '_err', r[nm + '_err'])
    if pos4 and posF:
        vc.eq('rho4', r['rho4'] * s[5], s[6])
    else:
        vc.eq('rho4', r['rho4'], rho, tol=0)
    if bad:
        vc.true('flags', r['flags'] == F.NONPOS_VAR)
    elif not vc.case(T > 0):
        vc.true('flags', r['flags'] == F.NONPOS_SIZE)
    else:
        vc.true('flags', r['flags'] == 0)
        vc.eq('e', [r['e'][0] * T, r['e'][1] * T], [p[2], p[3]])
        vc.eq('e1, e2', [r['e1'], r['e2']], [r['e'][0], r['e'][1]], tol=0)
        for k, nm in ((2, 'e1err'), (3, 'e2err')):
            ratio_err(vc, nm, r[nm] / 2, s[k], s[4], c[k, k], c[4, 4], c[k, 4])
        vc.eq('e_err', r['e_err'], [r['e1err'], r['e2err']], tol=0)
        vc.eq('e_cov', [r['e_cov'][0, 0], r['e_cov'][1, 1], r['e_cov'][0, 1], r['e_cov'][1, 0]],
              [r['e1err'] ** 2, r['e2err'] ** 2, 0, 0])
        vc.cover('end')
        return
    for k in ('e1', 'e2', 'e1err', 'e2err'):
        vc.isnan(k, r[k])


def small_obs(vc, n=3):
    import ngmix
    im = vc.mat('im', (1, n))
    w = vc.np.ones((1, n))
    for i in range(n):
        w[0, i] = vc.real('w%d' % i, pos=True)
    jac = ngmix.DiagonalJacobian(row=0.0, col=1.0, scale=vc.real('scale', pos=True))
    return ngmix.Observation(im, weight=w, jacobian=jac)


def gauss(vc, nm=''):
    import ngmix
    return ngmix.GMix(pars=[vc.real('p' + nm, pos=True), vc.real('r' + nm), vc.real('c' + nm),
                            vc.real('rr' + nm, pos=True), 0.0, vc.real('cc' + nm, pos=True)])


def content(gm):
    d = gm.get_data()
    return [d[f][0] for f in d.dtype.names]


@unit('C20', cases=['mixture', 'size', 'range'], samples=20)
def fitter(vc, kind):
    """what the fitter hands to the kernel; the guess given is only read"""
    import ngmix
    from ngmix.admom import admom as m
    obs = small_obs(vc)
    seen = {}
    M = A()

    def kernel(conf, wt, pixels, ares):
        seen['conf'], seen['wt'], seen['px'], seen['res'] = conf[0].copy(), wt[0].copy(), pixels, ares
        if kind == 'range':
            from ngmix.gexceptions import GMixRangeError
            raise GMixRangeError('x')
        for f in wt.dtype.names:
            wt[f][0] = vc.real('new_' + f)
        ares['flags'][0] = 0
    vc.patch(M, 'admom', kernel)
    out = {}

    def summ(ares, area, norm):
        out.update(ares=ares, area=area, norm=norm)
        return {'flags': ares['flags'][0], 'x': 3}
    vc.patch(m, 'get_result', summ)
    sm, et, tt = vc.reals('shiftmax etol Ttol', pos=True)
    rng = vc.rng('rng')
    f = m.AdmomFitter(maxiter=9, shiftmax=sm, etol=et, Ttol=tt, cenonly=(kind == 'mixture'), rng=rng)
    if kind == 'mixture':
        guess = gauss(vc)
        before = content(guess)
        res = f.go(obs, guess)
        vc.eq('guess unchanged', content(guess), before, tol=0)
        for k, nm in enumerate(guess.get_data().dtype.names):
            vc.eq('starts at the guess', seen['wt'][nm], before[k], tol=0)
    else:
        T = vc.real('T', pos=True)
        # the size is varied by ten per cent, shapes stay below 1
        res = f.go(obs, T)
        w = seen['wt']
        sc = obs.jacobian.scale
        if kind == 'size':
            for x in (w['row'], w['col']):
                vc.le('centre near the origin', abs(x), 0.5 * sc)
            vc.true('size near the one given', vc.And(w['irr'] + w['icc'] <= 1.1001 * T, w['irr'] + w['icc'] >= 0.8999 * T))
    cf = seen['conf']
    vc.eq('configuration', [cf['maxiter'], cf['shiftmax'], cf['etol'], cf['Ttol']], [9, sm, et, tt], tol=0)
    vc.true('configuration', cf['cenonly'] == (kind == 'mixture'))
    vc.true('pixels', seen['px'] is obs.pixels)
    vc.true('same result', out['ares'] is seen['res'])
    vc.eq('area', out['area'], obs.jacobian.area, tol=0)
    if kind == 'range':
        vc.true('flagged', res['flags'] == ngmix.flags.GMIX_RANGE_ERROR)
    else:
        vc.eq('norm of the final weight', out['norm'], vc.real('new_norm'), tol=0)
        vc.true('flags', res['flags'] == 0 and res['x'] == 3)
    vc.cover('end')


@unit('C20', samples=20)
def refused(vc):
    """observations only; no mixture or image of a failure"""
    import ngmix
    from ngmix.admom import admom as m
    f = m.AdmomFitter()
    obs = small_obs(vc)
    ol = ngmix.ObsList()
    ol.append(obs)
    for bad in (ol, 3, obs.image):
        r = vc.call(f.go, bad, 1.0)
        vc.true('refused', not r.ok and r.name == 'ValueError')
    r = m.AdmomResult(obs, dict(flags=4))
    vc.true('no mixture', not vc.call(r.get_gmix).ok)
    vc.true('no image', not vc.call(r.make_image).ok)
    r = vc.call(m.find_cen_admom, obs, fwhm=1.0, ntry=2)
    vc.true('needs a generator', not r.ok and r.name == 'ValueError')
    r = vc.call(m.find_cen_admom, obs)
    vc.true('needs a weight', not r.ok and r.name == 'ValueError')
    vc.cover('end')


@unit('C20', samples=60)
def mixture(vc):
    """the mixture of a result has its centre, size and shape and unit flux"""
    from ngmix.admom import admom as m
    obs = small_obs(vc)
    r0, c0, T = vc.real('r0'), vc.real('c0'), vc.real('T', pos=True)
    e1, e2 = vc.reals('e1 e2')
    vc.assume(e1 * e1 + e2 * e2 < 0.99)
    res = m.AdmomResult(obs, dict(flags=0, pars=vc.np.array([r0, c0, e1 * T, e2 * T, T, 5.0])))
    gm = res.get_gmix()
    d = gm.get_data()
    vc.eq('centre', [d['row'][0], d['col'][0]], [r0, c0])
    vc.eq('size', d['irr'][0] + d['icc'][0], T)
    vc.eq('e1', d['icc'][0] - d['irr'][0], e1 * T, scale=1)
    vc.eq('e2', 2 * d['irc'][0], e2 * T, scale=1)
    vc.eq('flux', d['p'][0], 1.0)
    vc.eq('parameters kept', res['pars'], [r0, c0, e1 * T, e2 * T, T, 5.0], tol=0)
    vc.cover('end')


@unit('C20', cases=[(g, k) for g in (0, 1) for k in (0, 1, 3)], samples=20)
def find_centre(vc, case):
    """tries until one is not flagged, starting at the weight given; the weight given is only read"""
    import ngmix
    from ngmix.admom import admom as m
    given, good = case
    obs = small_obs(vc)
    seen = []
    conf = {}

    class Fitter(object):
        def __init__(self, **k):
            conf.update(k)

        def go(self, obs=None, guess=None):
            seen.append((obs, content(guess)))
            guess.set_cen(vc.real('m%d' % len(seen)), 0.5)
            r = m.AdmomResult(obs, dict(flags=0 if len(seen) == good + 1 else 4))
            return r
    vc.patch(m, 'AdmomFitter', Fitter)
    fin = gauss(vc, 'fin')
    vc.patch(m.AdmomResult, 'get_gmix', lambda self: fin)
    gm = gauss(vc)
    before = content(gm)
    fw = vc.real('fwhm', pos=True)
    rng = vc.rng('rng')
    kw = dict(gmix=gm) if given else dict(fwhm=fw)
    res = m.find_cen_admom(obs, ntry=3, rng=rng, maxiter=8, shiftmax=0.3, etol=0.1, Ttol=0.2, **kw)
    vc.true('configuration', conf == dict(maxiter=8, shiftmax=0.3, etol=0.1, Ttol=0.2, cenonly=True))
    vc.true('tries', len(seen) == min(good + 1, 3))
    vc.true('observation', all(x[0] is obs for x in seen))
    vc.eq('weight unchanged', content(gm), before, tol=0)
    names = list(gm.get_data().dtype.names)
    ir, ic = names.index('row'), names.index('col')
    if given:
        vc.eq('starts at the weight given', seen[0][1], before, tol=0)
    else:
        vc.eq('starts at the origin', [seen[0][1][ir], seen[0][1][ic]], [0, 0], tol=0)
        T = fw * fw / (2 * vc.np.log(2.0) * 2)
        vc.eq('size of the weight', [seen[0][1][names.index('irr')], seen[0][1][names.index('icc')]], [T / 2, T / 2])
    for x in seen[1:]:
        vc.le('near the origin', abs(x[1][ir]), 0.5 * obs.jacobian.scale)
        vc.le('near the origin', abs(x[1][ic]), 0.5 * obs.jacobian.scale)
        for k, f in enumerate(names):
            if f in ('p', 'irr', 'irc', 'icc', 'det'):
                vc.eq('same weight', x[1][k], seen[0][1][k], tol=0)
    if good < 3:
        vc.eq('centre', res['cen'], [fin.get_data()['row'][0], fin.get_data()['col'][0]])
    else:
        vc.true('flags', res['flags'] == 4)
        vc.isnan('no centre', res['cen'][0])
        vc.isnan('no centre', res['cen'][1])
    vc.cover('end')


@unit('C20', samples=25, prove=False)
def real_runs(vc):
    """whole runs: the guess is only read, no flag means a fixed point"""
    import numpy as np
    import ngmix
    rs = np.random.RandomState(vc.int('seed', 0, 10 ** 6))
    n = 21 + 2 * vc.int('half', 0, 6)
    sc = rs.uniform(0.2, 1.5)
    jac = ngmix.DiagonalJacobian(row=(n - 1) / 2 + rs.uniform(-1, 1), col=(n - 1) / 2 + rs.uniform(-1, 1), scale=sc)
    gm = ngmix.GMixModel([0, 0, rs.uniform(-0.2, 0.2), rs.uniform(-0.2, 0.2), rs.uniform(3, 20) * sc ** 2, 10.0], 'gauss')
    noise = vc.real('noise', 0.0, 0.05)
    obs = ngmix.Observation(gm.make_image((n, n), jacobian=jac) + noise * rs.normal(size=(n, n)),
                            weight=np.ones((n, n)), jacobian=jac)
    guess = ngmix.GMixModel([0, 0, 0, 0, rs.uniform(3, 20) * sc ** 2, 1.0], 'gauss')
    before = content(guess)
    f = ngmix.admom.AdmomFitter(maxiter=100, shiftmax=5.0, etol=1e-5, Ttol=1e-3)
    res = f.go(obs, guess)
    vc.eq('guess unchanged', content(guess), before, tol=0)
    if res['flags'] == 0:
        r2 = f.go(obs, res.get_gmix())
        vc.true('still a fixed point', r2['flags'] == 0)
        vc.eq('size', r2['T'], res['T'], tol=0.05)
        vc.eq('shape', r2['e'], res['e'], tol=0.05, scale=1)
        if noise < 1e-3:
            vc.eq('true flux', res['flux'], 10.0, tol=0.1)
    vc.cover('end')
