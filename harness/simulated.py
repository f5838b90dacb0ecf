"""Simulated observations."""
from pyvc.unit import unit
from harness.obsdata import weight_map


def S():
    import ngmix.simobs as m
    return m


def median(vc, vals):
    v = []
    for y in vals:
        i = 0
        while i < len(v) and vc.case(v[i] <= y):
            i += 1
        v.insert(i, y)
    n = len(v)
    return v[n // 2] if n % 2 else (v[n // 2 - 1] + v[n // 2]) / 2


def expected_noise(vc, w, z, add_all, nf):
    """the standard normal numbers z scaled to the errors of the weight map"""
    np = vc.np
    sh = w.shape
    pos = [[vc.case(w[i, j] > 0) for j in range(sh[1])] for i in range(sh[0])]
    good = [np.sqrt(1 / w[i, j]) for i in range(sh[0]) for j in range(sh[1]) if pos[i][j]]
    fac = 1 if nf is None else nf
    med = median(vc, good) if good and len(good) < w.size and add_all else 0
    out = []
    for i in range(sh[0]):
        for j in range(sh[1]):
            if not good:
                e = 1.0e15
            elif pos[i][j]:
                e = np.sqrt(1 / w[i, j]) * fac
            else:
                e = med * fac
            out.append(e * z[i * sh[1] + j])
    return out


@unit('C27', cases=[(sh, a, n) for sh in ((1, 1), (1, 2), (2, 2), (3, 1)) for a in (0, 1) for n in (0, 1)], samples=40,
      bound='weight maps of at most 4 pixels')
def noise(vc, case):
    sh, add_all, has_nf = case
    w = weight_map(vc, 'w', sh)
    nf = vc.real('nf', pos=True, gen=lambda r: r.uniform(0.5, 3)) if has_nf else None
    rng = vc.rng('g')
    old = w.copy()
    n = S().get_noise_image(w, rng, add_all=bool(add_all), noise_factor=nf)
    vc.true('shape', tuple(n.shape) == sh)
    z = rng.log
    vc.true('one draw for each pixel', len(z) == sh[0] * sh[1])
    for k, x in enumerate(expected_noise(vc, w, z, add_all, nf)):
        vc.eq('noise', n.ravel()[k], x, scale=1)
        vc.eq('weight untouched', w.ravel()[k], old.ravel()[k], tol=0)
    vc.true('a generator is needed', vc.call(S().get_noise_image, w, None).name == 'ValueError')
    vc.cover('end')


def count_usable(vc, nr, nc, w):
    from harness.obsdata import count_usable
    return count_usable(vc, nr, nc, w)


def error_any(vc, nr, nc, w, i, j, add_all, nf):
    """the error of an arbitrary pixel according to a weight map of any size"""
    np = vc.np
    fac = 1 if nf is None else nf
    n = count_usable(vc, nr, nc, w)
    good = vc.counted(n, nr * nc, w[i, j] > 0)
    if not vc.case(n > 0):
        return 1.0e15
    if good:
        return np.sqrt(1 / w[i, j]) * fac
    if not add_all:
        return 0.0
    if not vc.symbolic:
        return np.median(np.sqrt(1 / w[w > 0])) * fac
    # the median of the errors of the usable pixels (contract of numpy.median)
    vc.true('one median', len(vc.medians) == 1)
    if len(vc.medians) != 1:
        return 0.0
    p, v = vc.medians[0]
    k, l = vc.at('k', nr), vc.at('l', nc)
    use = vc.case(p.cond[k, l] != 0)
    vc.true('median of the usable pixels', use == vc.case(w[k, l] > 0))
    if use:
        vc.eq('median of their errors', p.arr[k, l], np.sqrt(1 / w[k, l]))
    return v * fac


@unit('C27', cases=[(a, n) for a in (0, 1) for n in (0, 1)], samples=60)
def noise_any(vc, case):
    """a weight map of any size"""
    from harness.obsdata import any_map
    add_all, has_nf = case
    nr, nc = vc.int('nr', 1), vc.int('nc', 1)
    i, j = vc.at('i', nr), vc.at('j', nc)
    w = any_map(vc, 'w', nr, nc, True)
    nf = vc.real('nf', pos=True, gen=lambda r: r.uniform(0.5, 3)) if has_nf else None
    rng = vc.rng('g', whole=True)
    old = w.copy()
    n = S().get_noise_image(w, rng, add_all=bool(add_all), noise_factor=nf)
    vc.true('shape', vc.And(n.shape[0] == nr, n.shape[1] == nc))
    vc.true('one draw for each pixel', len(rng.log) == 1)
    vc.eq('noise', n[i, j], error_any(vc, nr, nc, old, i, j, add_all, nf) * rng.log[0][i, j], scale=1)
    vc.eq('weight untouched', w[i, j], old[i, j], tol=0)
    vc.cover('end')


SH = (1, 2)


def some_obs(vc, tag, psf=True, psf_gmix=True, raw=False):
    import ngmix
    from harness.obsdata import some_jacobian
    im = vc.mat('im' + tag, SH)
    w = weight_map(vc, 'w' + tag, SH)
    vc.assume(vc.Or(w[0, 0] > 0, w[0, 1] > 0))
    p = None
    if psf:
        g = None
        if psf_gmix:
            g = ngmix.GMix(pars=[vc.real('pp' + tag, pos=True), 0.1, vc.real('pr' + tag), vc.real('pa' + tag, pos=True), 0.0, 1.0])
        p = ngmix.Observation(vc.mat('pim' + tag, (1, 1)), jacobian=ngmix.UnitJacobian(row=0, col=0), gmix=g, meta={'a': [1]})
    o = ngmix.Observation(im, weight=w, jacobian=some_jacobian(vc, tag), psf=p, meta={'b': [2]})
    if raw:
        o.weight_raw = weight_map(vc, 'raw' + tag, SH)
    return o


def mixture(vc, tag='m'):
    import ngmix
    return ngmix.GMix(pars=[vc.real('p' + tag), vc.real('r' + tag), vc.real('c' + tag), vc.real('a' + tag, pos=True), 0.0, vc.real('b' + tag, pos=True)])


def same_obs(vc, nm, a, b):
    """equal in all parts"""
    for f in ('image', 'weight'):
        x, y = getattr(a, f), getattr(b, f)
        vc.true(nm + ': shape', x.shape == y.shape)
        for p, q in zip(x.ravel(), y.ravel()):
            vc.eq(nm + ': ' + f, p, q, tol=0)
    same_jac(vc, nm, a.jacobian, b.jacobian)
    vc.true(nm + ': psf', a.has_psf() == b.has_psf())
    vc.true(nm + ': mixture', a.has_gmix() == b.has_gmix())
    vc.true(nm + ': metadata', dict(a.meta) == dict(b.meta))
    if a.has_gmix():
        for p, q in zip(a.gmix.get_full_pars(), b.gmix.get_full_pars()):
            vc.eq(nm + ': mixture', p, q, tol=0)
    if a.has_psf():
        same_obs(vc, nm + ': psf', a.psf, b.psf)


def same_jac(vc, nm, a, b):
    for f in ('row0', 'col0', 'dvdrow', 'dvdcol', 'dudrow', 'dudcol'):
        vc.eq(nm + ': transformation', getattr(a, f), getattr(b, f), tol=0)


def shared(a, b):
    import numpy as np
    return np.shares_memory(a, b)


@unit('C27', cases=[(g, c, n, r, u, f) for g in (0, 1) for c in (0, 1) for n in (0, 1, 2) for r, u in ((0, 1), (1, 0), (1, 1)) for f in (0, 1)
                    if not (n == 0 and r)], samples=12, bound='images of 1 x 2')
def single(vc, case):
    """one observation"""
    import ngmix
    import ngmix.gmix.gmix as GM
    has_g, conv, noisy, raw, use_raw, has_nf = case
    o = some_obs(vc, '', psf=bool(conv) or bool(raw), psf_gmix=True, raw=raw)
    before = o.copy()
    if raw:
        before_raw = o.weight_raw.copy()
    gm = mixture(vc) if has_g else None
    rng = vc.rng('g')
    nf = vc.real('nf', pos=True, gen=lambda r: r.uniform(0.5, 3)) if has_nf else None
    mdl = vc.mat('model', SH)
    seen = []
    want = None
    if has_g:
        par = gm.get_full_pars().copy()
        want = gm.convolve(o.psf.gmix).get_full_pars() if conv else par

    def make_image(self, dims, jacobian=None, fast_exp=False):
        seen.append((self.get_full_pars(), dims, jacobian, fast_exp))
        return mdl.copy()
    vc.patch(GM.GMix, 'make_image', make_image)
    s = S().simulate_obs(gm, o, add_noise=noisy > 0, rng=rng, add_all=noisy > 1, noise_factor=nf, use_raw_weight=bool(use_raw),
                         convolve_psf=bool(conv))
    vc.unpatch()
    vc.true('an observation', isinstance(s, ngmix.Observation) and s is not o)
    same_obs(vc, 'input untouched', o, before)
    if has_g:
        vc.true('rendered once', len(seen) == 1)
        pars, dims, jac, fast = seen[0]
        vc.true('size of the image', tuple(dims) == SH)
        vc.true('exact exponential', not fast)
        same_jac(vc, 'rendered with', jac, before.jacobian)
        vc.true('components', len(pars) == len(want))
        for a, b in zip(pars, want):
            vc.eq('mixture rendered', a, b, scale=1)
        for a, b in zip(gm.get_full_pars(), par):
            vc.eq('mixture untouched', a, b, tol=0)
    else:
        vc.true('nothing rendered', not seen)
    w = before.weight
    if noisy:
        use = before_raw if raw and use_raw else w
        ns = expected_noise(vc, use, rng.log, noisy > 1, nf)
        for k in range(2):
            vc.eq('noise image', s.noise_image.ravel()[k], ns[k], scale=1)
    else:
        ns = [0, 0]
        vc.true('no noise image', s.noise_image is None)
        vc.true('no draws', not rng.log)
    for k in range(2):
        vc.eq('image', s.image.ravel()[k], (mdl.ravel()[k] if has_g else 0) + ns[k], scale=1)
        vc.eq('weight', s.weight.ravel()[k], w.ravel()[k] / nf ** 2 if has_nf else w.ravel()[k], scale=1)
    same_jac(vc, 'keeps', s.jacobian, before.jacobian)
    vc.true('psf', s.has_psf() == before.has_psf())
    if s.has_psf():
        same_obs(vc, 'keeps psf', s.psf, before.psf)
    # nothing shared: change the result
    with s.writeable():
        s.image[:, :] = 5.0
        s.weight[:, :] = 7.0
        s.jacobian.set_cen(row=100.0, col=100.0)
    if s.has_psf():
        s.psf.meta['a'].append(3)
        with s.psf.writeable():
            s.psf.image[:, :] = 3.0
        s.psf.gmix.set_flux(17.0)
    same_obs(vc, 'not shared', o, before)
    vc.cover('end')


@unit('C27', cases=[(g, c, n, r, u, f) for g in (0, 1) for c in (0, 1) for n in (0, 1, 2) for r, u in ((0, 1), (1, 0), (1, 1)) for f in (0, 1)
                    if not (n == 0 and r)], samples=12)
def single_any(vc, case):
    """one observation of any size"""
    import ngmix
    import ngmix.gmix.gmix as GM
    from harness.obsdata import any_map, some_jacobian
    has_g, conv, noisy, raw, use_raw, has_nf = case
    # contract of the pixel list (C10, C12): made where there is a usable pixel, and of no interest here
    import ngmix.observation as OB
    vc.patch(OB, 'make_pixels', lambda image, weight, jacob, ignore_zero_weight=True: vc.np.zeros(1))
    nr, nc, pn, pm = [vc.int(x, 1) for x in ('nr', 'nc', 'pnr', 'pnc')]
    i, j, pi, pj = vc.at('i', nr), vc.at('j', nc), vc.at('pi', pn), vc.at('pj', pm)
    im, w, mdl = any_map(vc, 'im', nr, nc), any_map(vc, 'w', nr, nc, True), any_map(vc, 'model', nr, nc)
    pim = any_map(vc, 'pim', pn, pm)
    jac, pjac = some_jacobian(vc), some_jacobian(vc, 'p')
    pg = ngmix.GMix(pars=[vc.real('pp', pos=True), 0.1, vc.real('pr'), vc.real('pa', pos=True), 0.0, 1.0])
    psf = ngmix.Observation(pim.copy(), jacobian=pjac, gmix=pg, meta={'a': [1]})
    o = ngmix.Observation(im.copy(), weight=w.copy(), jacobian=jac, psf=psf, meta={'b': [2]})
    if raw:
        use = any_map(vc, 'raw', nr, nc, True)
        o.weight_raw = use.copy()
    gm = mixture(vc) if has_g else None
    rng = vc.rng('g', whole=True)
    nf = vc.real('nf', pos=True, gen=lambda r: r.uniform(0.5, 3)) if has_nf else None
    seen = []
    want = None
    if has_g:
        par = gm.get_full_pars().copy()
        want = gm.convolve(pg).get_full_pars() if conv else par

    def make_image(self, dims, jacobian=None, fast_exp=False):
        seen.append((self.get_full_pars(), dims, jacobian, fast_exp))
        return mdl.copy()
    vc.patch(GM.GMix, 'make_image', make_image)
    s = S().simulate_obs(gm, o, add_noise=noisy > 0, rng=rng, add_all=noisy > 1, noise_factor=nf, use_raw_weight=bool(use_raw),
                         convolve_psf=bool(conv))
    vc.true('an observation', isinstance(s, ngmix.Observation) and s is not o)

    def untouched(nm, o):
        vc.true(nm + ': shape', vc.And(o.image.shape[0] == nr, o.image.shape[1] == nc))
        vc.eq(nm + ': image', o.image[i, j], im[i, j], tol=0)
        vc.eq(nm + ': weight', o.weight[i, j], w[i, j], tol=0)
        same_jac(vc, nm, o.jacobian, jac)
        vc.true(nm + ': metadata', dict(o.meta) == {'b': [2]})
        same_psf(nm, o)
        if raw:
            vc.eq(nm + ': raw weight', o.weight_raw[i, j], use[i, j], tol=0)

    def same_psf(nm, o):
        vc.true(nm + ': psf', o.has_psf())
        p = o.psf
        vc.true(nm + ': psf shape', vc.And(p.image.shape[0] == pn, p.image.shape[1] == pm))
        vc.eq(nm + ': psf image', p.image[pi, pj], pim[pi, pj], tol=0)
        vc.eq(nm + ': psf weight', p.weight[pi, pj], 1.0, tol=0)
        same_jac(vc, nm + ': psf', p.jacobian, pjac)
        vc.true(nm + ': psf metadata', dict(p.meta) == {'a': [1]})
        vc.eq(nm + ': psf mixture', p.gmix.get_full_pars(), pg.get_full_pars(), tol=0)
    untouched('input untouched', o)
    if has_g:
        vc.true('rendered once', len(seen) == 1)
        pars, dims, jc, fast = seen[0]
        vc.true('size of the image', len(dims) == 2 and bool(vc.And(dims[0] == nr, dims[1] == nc)))
        vc.true('exact exponential', not fast)
        same_jac(vc, 'rendered with', jc, jac)
        vc.true('components', len(pars) == len(want))
        vc.eq('mixture rendered', pars, want, scale=1)
        vc.eq('mixture untouched', gm.get_full_pars(), par, tol=0)
    else:
        vc.true('nothing rendered', not seen)
    if noisy:
        vc.true('one draw for each pixel', len(rng.log) == 1)
        n = error_any(vc, nr, nc, use if raw and use_raw else w, i, j, noisy > 1, nf) * rng.log[0][i, j]
        vc.eq('noise image', s.noise_image[i, j], n, scale=1)
    else:
        n = 0
        vc.true('no noise image', s.noise_image is None)
        vc.true('no draws', not rng.log)
    vc.true('keeps: shape', vc.And(s.image.shape[0] == nr, s.image.shape[1] == nc))
    vc.eq('image', s.image[i, j], (mdl[i, j] if has_g else 0) + n, scale=1)
    vc.eq('weight', s.weight[i, j], w[i, j] / nf ** 2 if has_nf else w[i, j], scale=1)
    same_jac(vc, 'keeps', s.jacobian, jac)
    same_psf('keeps', s)

    # nothing shared: change the result
    with s.writeable():
        s.image[i, j] = 5.0
        s.weight[i, j] = 7.0
        s.jacobian.set_cen(row=100.0, col=100.0)
    s.psf.meta['a'].append(3)
    with s.psf.writeable():
        s.psf.image[pi, pj] = 3.0
    s.psf.gmix.set_flux(17.0)
    untouched('not shared', o)
    vc.cover('end')


OPTS = ('add_noise', 'rng', 'add_all', 'noise_factor', 'use_raw_weight', 'convolve_psf')


@unit('C27', cases=['obslist', 'mb', 'mbnone', 'list of none'], samples=3, bound='three bands of 2, 1 and 3 observations')
def structure(vc, kind):
    """lists and bands: same structure and order, each with its band's mixture and all the options"""
    import ngmix
    M = S()
    obs = [[ngmix.Observation(vc.np.ones((1, 1)), jacobian=ngmix.UnitJacobian(row=0, col=0)) for _ in range(n)] for n in (2, 1, 3)]
    seen = []
    new = {}

    def one(gmix, obs, **k):
        seen.append((gmix, obs, k))
        new[id(obs)] = ngmix.Observation(vc.np.ones((1, 1)), jacobian=ngmix.UnitJacobian(row=0, col=0))
        return new[id(obs)]
    vc.patch(M, '_simulate_obs', one)
    gms = [mixture(vc, str(b)) for b in range(3)]
    opts = {k: object() for k in OPTS}

    def ol(b):
        x = ngmix.ObsList()
        for o in obs[b]:
            x.append(o)
        return x
    if kind in ('obslist', 'list of none'):
        g = gms[0] if kind == 'obslist' else None
        r = M.simulate_obs(g, ol(0), **opts)
        vc.true('a list', type(r) is ngmix.ObsList and len(r) == 2)
        want = [(g, o) for o in obs[0]]
        got = list(r)
    else:
        mb = ngmix.MultiBandObsList()
        for b in range(3):
            mb.append(ol(b))
        g = gms if kind == 'mb' else None
        r = M.simulate_obs(g, mb, **opts)
        vc.true('bands', type(r) is ngmix.MultiBandObsList and [len(x) for x in r] == [2, 1, 3] and all(type(x) is ngmix.ObsList for x in r))
        want = [(gms[b] if kind == 'mb' else None, o) for b in range(3) for o in obs[b]]
        got = [o for x in r for o in x]
    vc.true('every observation once, in order', len(seen) == len(want) and all(s[0] is w[0] and s[1] is w[1] for s, w in zip(seen, want)))
    vc.true('options', all(set(s[2]) == set(OPTS) and all(s[2][k] is opts[k] for k in OPTS) for s in seen))
    vc.true('results in order', all(x is new[id(w[1])] for x, w in zip(got, want)))
    vc.cover('end')


@unit('C27', samples=2)
def defaults(vc):
    """noise everywhere, raw weight and psf convolution are the defaults, for one observation, a list and bands"""
    import ngmix
    M = S()
    o = ngmix.Observation(vc.np.ones((1, 1)), jacobian=ngmix.UnitJacobian(row=0, col=0))
    ol = ngmix.ObsList()
    ol.append(o)
    mb = ngmix.MultiBandObsList()
    mb.append(ol)
    seen = []

    def one(gmix, obs, **k):
        seen.append(k)
        return o
    vc.patch(M, '_simulate_obs', one)
    for x in (o, ol, mb):
        M.simulate_obs(None, x)
    vc.true('defaults', len(seen) == 3 and all(k == dict(add_noise=True, rng=None, add_all=True, noise_factor=None, use_raw_weight=True, convolve_psf=True)
                                              for k in seen))
    vc.cover('end')


@unit('C27', samples=3)
def refused(vc):
    import ngmix
    M = S()
    rng = vc.rng('g')
    ok = some_obs(vc, 'a')
    nopsf, nogmix = some_obs(vc, 'b', psf=False), some_obs(vc, 'c', psf_gmix=False)
    gm = mixture(vc)
    import ngmix.gmix.gmix as GM
    vc.patch(GM.GMix, 'make_image', lambda self, dims, jacobian=None: vc.np.zeros(SH))

    def raises(nm, exc, *a, **k):
        vc.true(nm, vc.call(M.simulate_obs, *a, **k).name == exc)
    raises('psf needed', 'RuntimeError', gm, nopsf, rng=rng)
    raises('psf mixture needed', 'RuntimeError', gm, nogmix, rng=rng)
    raises('generator needed', 'ValueError', gm, ok)
    raises('a mixture', 'ValueError', [gm], ok, rng=rng)
    raises('a mixture', 'ValueError', 3.0, ok, rng=rng)
    raises('an observation', 'ValueError', gm, ok.image, rng=rng)
    ol = ngmix.ObsList()
    ol.append(ok)
    raises('one mixture for a list', 'ValueError', [gm], ol, rng=rng)
    mb = ngmix.MultiBandObsList()
    mb.append(ol)
    mb.append(ol)
    raises('a list of mixtures for bands', 'ValueError', gm, mb, rng=rng)
    raises('one mixture for each band', 'ValueError', [gm], mb, rng=rng)
    raises('mixtures', 'ValueError', [1, 2], mb, rng=rng)
    vc.cover('end')
