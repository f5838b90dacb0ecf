"""Moments of the image before the point spread function."""
import math
from pyvc.unit import unit
from harness.galsimstub import Stub
from harness.obsdata import weight_map


def PM():
    import ngmix.prepsfmom as m
    return m


def sigma_of(fwhm):
    import ngmix
    return ngmix.moments.fwhm_to_sigma(fwhm)


FW = 2.3548200450309493
LIM = 12.5      # largest exponent for which the fast exponential is used


def freq(n):
    """angular frequencies in the order of the transform"""
    return [(i if 2 * i < n else i - n) / n * (2.0 * math.pi) for i in range(n)]


def modes(n, J):
    """(v, u) wave vectors; J = (dvdrow, dvdcol, dudrow, dudcol)"""
    vr, vco, ur, uc = J
    det = vr * uc - vco * ur
    f = freq(n)
    a, b, c, d = uc / det, -ur / det, -vco / det, vr / det
    return [[(a * y + b * x, c * y + d * x) for x in f] for y in f], abs(a * d - b * c)


def norm_of(kind, sigma, area):
    s2 = sigma * sigma
    return area * (5.0 * math.pi * s2 / 2 if kind == 'ksigma' else 2 * math.pi * s2)


def profile(kind, sigma, q, exp):
    """W and its first two derivatives by k^2"""
    s2 = sigma * sigma
    if kind == 'ksigma':
        c = s2 / 8
        x = 1 - c * q
        return x ** 4, -4 * c * x ** 3, 12 * c * c * x * x
    w = exp(-(s2 / 2 * q))
    return w, -s2 / 2 * w, s2 * s2 / 4 * w


def inside(kind, sigma, q):
    return q * (sigma * sigma) < 8 if kind == 'ksigma' else sigma * sigma / 2 * q < LIM


def fits_at(kind, n, seed_fwhm=1.0):
    """generator of a kernel size whose sum over the modes is one"""
    def gen(r, env):
        J = [env[k] for k in ('vrow', 'vcol', 'urow', 'ucol') if k in env]
        if len(J) == 2:
            J = [J[0], 0.0, 0.0, J[1]]
        if abs(J[0] * J[3] - J[1] * J[2]) < 1e-3:
            return 1.0
        ks, area = modes(n, J)

        def total(s):
            t = 0.0
            for row in ks:
                for v, u in row:
                    q = v * v + u * u
                    if inside(kind, s, q):
                        t += profile(kind, s, q, math.exp)[0]
            return t * norm_of(kind, s, area) / n / n
        lo, hi = 1e-3, 1e3
        for _ in range(200):
            mid = math.sqrt(lo * hi)
            if total(mid) < 1:
                lo = mid
            else:
                hi = mid
        if r.random() < 0.15:
            return lo * FW * r.uniform(0.5, 2)
        return lo * FW
    gen.env = True
    return gen


def jac_of(vc, general, sign=1):
    lo = dict(gen=lambda r: r.choice([-1, 1]) * r.uniform(0.5, 1.5))
    if general:
        J = [vc.real('vrow', **lo), vc.real('vcol', gen=lambda r: r.uniform(-0.4, 0.4)),
             vc.real('urow', gen=lambda r: r.uniform(-0.4, 0.4)), vc.real('ucol', **lo)]
    else:
        J = [vc.real('vrow', **lo), 0.0, 0.0, vc.real('ucol', **lo)]
    det = J[0] * J[3] - J[1] * J[2]
    vc.assume(sign * det > 0.1)
    return J


def jacobian(vc, J, tag):
    import ngmix
    r, c = vc.reals('row%s col%s' % (tag, tag))
    return ngmix.Jacobian(row=r, col=c, dvdrow=J[0], dvdcol=J[1], dudrow=J[2], dudcol=J[3])


def fitter(kind, fwhm, **k):
    return {'ksigma': PM().KSigmaMom, 'gauss': PM().PGaussMom}[kind](fwhm, **k)


def record(vc):
    vc.patch(PM(), 'make_mom_result', lambda sums, sums_cov, sums_norm=None: dict(
        flags=0, flagstr='', sums=sums, sums_cov=sums_cov, sums_norm=sums_norm))


class Kern(object):
    """what the kernels have to be; which: the modes inside them (assumed), and
    inside the smoothing"""

    def __init__(self, vc, kind, n, J, fwhm, smooth, which, soft=None):
        s = sigma_of(fwhm)
        ks, area = modes(n, J)
        self.norm = norm_of(kind, s, area)
        self.total = 0.0
        self.at = {}
        exp = vc.fexp if kind == 'gauss' or smooth is not None else None
        for i in range(n):
            for j in range(n):
                v, u = ks[i][j]
                q = v * v + u * u
                a, b = min(i, n - i), min(j, n - j)
                vc.assume(inside(kind, s, q) if which(a, b) else vc.Not(inside(kind, s, q)))
                if not which(a, b):
                    continue
                w, d, d2 = profile(kind, s, q, exp)
                self.total = self.total + w
                if smooth is not None:
                    t = sigma_of(smooth)
                    c = t * t / 2 * q < LIM
                    vc.assume(c if soft(a, b) else vc.Not(c))
                    z = exp(-(t * t / 2 * q)) if soft(a, b) else 0.0
                    w, d, d2 = w * z, d * z, d2 * z
                m = self.norm
                self.at[i, j] = dict(fkf=m * w, fkr=-m * (4 * d + 4 * q * d2), fkp=-m * 4 * (u * u - v * v) * d2,
                                     fkc=-m * 8 * u * v * d2)
        self.total = self.total * self.norm / n / n

    def fits(self, vc):
        return abs(self.total - 1.0) <= 1e-5


ALL = lambda a, b: True
PATTERNS = {
    'all': ALL,
    'cross': lambda a, b: a == 0 or b == 0,
    'row': lambda a, b: b == 0,
    'disc': lambda a, b: a * a + b * b <= 5,
    'half': lambda a, b: a * a + b * b <= 4,
    'centre': lambda a, b: a == 0 and b == 0,
}


def setting(vc, case):
    kind, n, which, soft, general, sign = case
    if kind == 'gauss' or soft:
        vc.opaque_fexp()
    J = jac_of(vc, general, sign)
    fwhm = vc.real('fwhm', pos=True, gen=fits_at(kind, n))
    sm = vc.real('smooth', pos=True, gen=lambda r: r.uniform(0.2, 1.5) if soft == 'all' else r.uniform(1, 6)) if soft else None
    K = Kern(vc, kind, n, J, fwhm, sm, PATTERNS[which], PATTERNS.get(soft))
    return kind, n, J, fwhm, sm, K


KCASES = [('gauss', 2, 'all', None, True, 1), ('gauss', 2, 'all', 'all', True, -1), ('gauss', 2, 'all', 'row', True, 1),
          ('gauss', 3, 'all', None, True, -1), ('gauss', 3, 'all', 'cross', False, 1), ('gauss', 4, 'all', None, False, 1),
          ('gauss', 4, 'all', 'disc', False, -1), ('gauss', 2, 'cross', None, True, 1),
          ('ksigma', 2, 'all', None, True, 1), ('ksigma', 2, 'row', 'all', True, -1), ('ksigma', 2, 'all', 'row', True, 1),
          ('ksigma', 3, 'all', None, True, -1), ('ksigma', 3, 'cross', 'all', False, 1),
          ('ksigma', 4, 'disc', 'all', False, -1)]


@unit('C30', cases=KCASES, samples=40, nsamples=400, feas_ms=100, prove_ms=1500, budget=150,
      bound='transforms of 2-4 pixels on a side, some sets of modes')
def kernel(vc, case):
    """the kernels, without a point spread function"""
    import ngmix
    kind, n, J, fwhm, sm, K = setting(vc, case)
    vc.assume(K.fits(vc))
    jac = jacobian(vc, J, '')
    obs = ngmix.Observation(vc.np.zeros((n, n)) + 1.0, jacobian=jac)
    record(vc)
    k = {} if sm is None else dict(fwhm_smooth=sm)
    o = vc.call(fitter(kind, fwhm, pad_factor=1, ap_rad=0, **k).go, obs, return_kernels=True, no_psf=True)
    vc.true('accepted', o.ok)
    k = o.value['kernels']
    vc.eq('norm', o.value['sums_norm'], K.norm)
    for i in range(n):
        for j in range(n):
            for nm in ('fkf', 'fkr', 'fkp', 'fkc'):
                want = K.at[i, j][nm] if (i, j) in K.at else 0.0
                vc.eq('%s' % nm, k[nm][i, j].real, want, scale=None if vc.symbolic else abs(K.norm) * (1 + 10 * fwhm ** 2))
    vc.cover('end')


@unit('C30', samples=60)
def smoothing(vc):
    """the smoothing profile at an arbitrary mode of any number of them"""
    vc.opaque_fexp()
    n = vc.int('n', 1)
    sm = vc.real('smooth', pos=True)
    q = vc.symarr('q', n, {None: dict(lo=0.0, gen=lambda r: r.uniform(0, 60) * r.choice([0, 1, 1]))})
    k = vc.at('k', n)
    x = q[k]
    out = PM()._get_fwhm_smooth_profile(sm, q)
    t = sigma_of(sm)
    z = t * t / 2 * x
    vc.true('one for each mode', out.shape[0] == n)
    if vc.case(z < LIM):
        vc.eq('gaussian', out[k], vc.fexp(-z))
    else:
        vc.eq('nothing far out', out[k], 0.0)
    vc.cover('end')


@unit('C30', cases=[(a, b) for a in ('gauss', 'ksigma') for b in (False, True)], samples=40, prove_ms=3000)
def kernel_any(vc, case):
    """the kernels at an arbitrary mode of transforms of any size"""
    kind, soft = case
    vc.opaque_fexp()
    m = PM()
    n = vc.int('n', 1, gen=lambda r: r.choice([3, 16, 21, 24]))
    i, j = vc.at('i', n), vc.at('j', n)
    J = jac_of(vc, True)
    fwhm = vc.real('fwhm', pos=True, gen=lambda r: r.uniform(4, 7) if kind == 'gauss' else r.uniform(1.5, 4.5))
    sm = vc.real('smooth', pos=True, gen=lambda r: r.uniform(0.2, 3)) if soft else 0.0
    if soft and vc.symbolic:
        # by its contract (smoothing)
        sf = vc.ufun('soft', lambda f, q: math.exp(-sigma_of(f) ** 2 / 2 * q) if sigma_of(f) ** 2 / 2 * q < LIM else 0.0)
        vc.patch(m, '_get_fwhm_smooth_profile', lambda f, q: q.map(lambda x: sf(f, x)))
    f = m.fft.fftfreq(n)
    r = vc.call(m._gauss_kernels_impl if kind == 'gauss' else m._ksigma_kernels_impl, n, fwhm, J[0], J[1], J[2], J[3], sm)
    if not r.ok:
        vc.true('refused', r.name == 'FFTRangeError')
        return
    r = r.value
    s = sigma_of(fwhm)
    det = J[0] * J[3] - J[1] * J[2]
    y, x = f[i] * (2.0 * math.pi), f[j] * (2.0 * math.pi)
    v, u = (J[3] * y - J[2] * x) / det, (J[0] * x - J[1] * y) / det
    q = v * v + u * u
    norm = norm_of(kind, s, 1 / abs(det))
    vc.eq('value at the origin', r['fk00'], norm)
    w = inside(kind, s, q)
    if not vc.symbolic:
        edge = q * s * s / (8 if kind == 'ksigma' else 2 * LIM)
        vc.assume(abs(edge - 1) > 1e-9)
    full = {}
    for nm in ('fkf', 'fkr', 'fkp', 'fkc'):
        a = vc.np.zeros((n, n))
        a[r['msk']] = r[nm]
        full[nm] = a[i, j]
        if nm == 'fkf' and not soft:
            vc.eq('its sum', r['nrm'], vc.np.sum(a) / n / n)
    if vc.case(w):
        w, d, d2 = profile(kind, s, q, vc.fexp)
        z = 1.0
        if soft:
            t = sigma_of(sm)
            z = sf(sm, q) if vc.symbolic else vc.fexp(-t * t / 2 * q) if t * t / 2 * q < LIM else 0.0
        want = dict(fkf=w, fkr=-(4 * d + 4 * q * d2), fkp=-4 * (u * u - v * v) * d2, fkc=-8 * u * v * d2)
        for nm in want:
            vc.eq(nm, full[nm], norm * z * want[nm], scale=None if vc.symbolic else abs(norm) * (1 + 10 * fwhm ** 2))
    else:
        for nm in full:
            vc.eq('%s outside' % nm, full[nm], 0.0)
    vc.cover('end')


# complex numbers as pairs
def cm(a, b):
    return a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0]


def cd(a, b):
    if isinstance(b[1], float) and b[1] == 0:
        return a[0] / b[0], a[1] / b[0]
    if isinstance(b[0], float) and b[0] == 0:
        return a[1] / b[1], -a[0] / b[1]
    d = b[0] * b[0] + b[1] * b[1]
    x = cm(a, (b[0], -b[1]))
    return x[0] / d, x[1] / d


def root(k, n):
    """exp(-2 pi i k / n)"""
    k %= n
    if 4 * k % n == 0:
        return [(1.0, 0.0), (0.0, -1.0), (-1.0, 0.0), (0.0, 1.0)][4 * k // n]
    return math.cos(2 * math.pi * k / n), -math.sin(2 * math.pi * k / n)


def dft(im, n, before):
    """transform of the image with zeros around it"""
    out = {}
    for i in range(n):
        for j in range(n):
            re = im_ = 0.0
            for p in range(im.shape[0]):
                for q in range(im.shape[1]):
                    w = cm(root(i * (p + before), n), root(j * (q + before), n))
                    if w[0] != 0:
                        re = re + w[0] * im[p, q]
                    if w[1] != 0:
                        im_ = im_ + w[1] * im[p, q]
            out[i, j] = re, im_
    return out


def floored(vc, kp, low):
    """transform of the psf, small amplitudes raised; low: what is assumed"""
    c = kp[0, 0][0]
    vc.assume(c > 0.01)
    floor = 1e-5 * c
    out = {}
    for k, (re, im) in kp.items():
        if low.get(k) == 'zero':
            vc.assume(vc.And(re == 0, im == 0))
            out[k] = (floor, 0.0)
        elif low.get(k) in (1, -1):
            # the sign is kept
            vc.assume(im == 0)
            vc.assume(vc.And(low[k] * re > 0, low[k] * re <= floor))
            out[k] = low[k] * floor, 0.0
        elif low.get(k) in ('+', '-'):
            sg = 1 if low[k] == '+' else -1
            vc.assume(im == 0)
            vc.assume(sg * re > floor)
            out[k] = re, 0.0
        elif low.get(k) == 'complex':
            r2 = re * re + im * im
            vc.assume(vc.And(r2 > 0, r2 <= floor * floor))
            r = vc.np.sqrt(r2)
            out[k] = re / r * floor, im / r * floor
        else:
            if k != (0, 0):
                vc.assume(re * re + im * im > floor * floor)
            out[k] = re, im
    return out


def phase(vc, n, drow, dcol):
    f = freq(n)
    px = [(vc.np.cos(x * dcol), vc.np.sin(x * dcol)) for x in f]
    py = [(vc.np.cos(x * drow), vc.np.sin(x * drow)) for x in f]
    return {(i, j): cm(py[i], px[j]) for i in range(n) for j in range(n)}


ORDER = ('fkp', 'fkc', 'fkr', 'fkf')


def expected(vc, K, n, kim, kpsf, ph, tot_var, pad):
    """sums and covariance"""
    d2 = float(n * n)
    m = {}
    for nm in ORDER:
        t = 0.0
        for k, fk in K.at.items():
            z = cm(cd(kim[k], kpsf[k]), ph[k]) if ph is not None else cd(kim[k], kpsf[k])
            t = t + z[0] * fk[nm]
        m[nm] = t / d2
    cov = {}
    for a in range(4):
        for b in range(a, 4):
            t = 0.0
            for k, fk in K.at.items():
                p = kpsf[k]
                ab = fk[ORDER[a]] * fk[ORDER[b]]
                if isinstance(p[1], float) and p[1] == 0:
                    t = t + ab / p[0] / p[0]
                else:
                    t = t + ab / (p[0] * p[0] + p[1] * p[1])
            cov[a, b] = t * tot_var * pad ** 2 / (d2 * d2)
    return m, cov


def judge(vc, res, m, cov, norm):
    s, c = res['sums'], res['sums_cov']
    vc.true('shapes', tuple(s.shape) == (6,) and tuple(c.shape) == (6, 6))
    vc.eq('norm', res['sums_norm'], norm)
    for i in (0, 1):
        vc.true('no centroid', vc.np.isnan(s[i]))
        vc.eq('centroid variance', c[i, i], 1.0)
        for j in range(6):
            if j != i:
                vc.eq('centroid covariance', c[i, j], 0.0)
                vc.eq('centroid covariance', c[j, i], 0.0)
    big = None if vc.symbolic else max([abs(float(m[k])) for k in ORDER] + [1e-3])
    cbig = None if vc.symbolic else max(abs(float(v)) for v in cov.values())
    for a in range(4):
        vc.eq('sum %s' % ORDER[a], s[2 + a], m[ORDER[a]], scale=None if vc.symbolic else 1e4 * big)
        for b in range(a, 4):
            vc.eq('covariance', c[2 + a, 2 + b], cov[a, b], scale=None if vc.symbolic else 100 * cbig)
            vc.eq('covariance', c[2 + b, 2 + a], cov[a, b], scale=None if vc.symbolic else 100 * cbig)


def sinc(x):
    return 1.0 if x == 0 else math.sin(math.pi * x) / (math.pi * x)


# kind, image size, psf size (0: none), pad factor, modes, the psf pixels that are not zero, modes of the psf below the floor,
# weights of any sign
MCASES = [('gauss', 2, 0, 1, 'all', None, {}, False), ('ksigma', 2, 0, 1, 'row', None, {}, True), ('gauss', 1, 0, 3, 'all', None, {}, True),
          ('gauss', 2, 2, 1, 'all', ((0, 0), (0, 1), (1, 0)), {(0, 1): '+', (1, 0): '-', (1, 1): '+'}, False),
          ('ksigma', 2, 2, 1, 'row', None, {}, False),
          ('gauss', 2, 2, 1, 'all', ((0, 0), (0, 1)), {(0, 1): 1, (1, 1): 1}, False),
          ('gauss', 2, 2, 1, 'all', ((0, 0), (0, 1)), {(0, 1): -1, (1, 1): -1}, False),
          ('gauss', 2, 2, 1, 'all', ((0, 0), (1, 0)), {(1, 0): 'zero', (1, 1): 'zero'}, False),
          ('gauss', 2, 3, 1, 'all', ((0, 0),), {}, False), ('ksigma', 1, 2, 2, 'disc', ((0, 1),), {}, False),
          ('ksigma', 3, 1, 1.5, 'disc', None, {}, False)]


def total_variance(vc, w):
    t = 0.0
    for x in w.ravel():
        t = t + vc.ite(x > 0, 1 / vc.ite(x > 0, x, 1.0), 0.0)
    return t




@unit('C30', cases=MCASES, samples=25, nsamples=400, feas_ms=100, prove_ms=2000, budget=200,
      bound='transforms of 2-4 pixels on a side')
def moments(vc, case):
    """moments and covariance from image, weight and point spread function"""
    import ngmix
    kind, ni, npsf, pad, which, spots, low, signs = case
    n = int(max(ni, npsf) * pad)
    vc.opaque_fexp()
    J = jac_of(vc, False)
    fwhm = vc.real('fwhm', pos=True, gen=fits_at(kind, n))
    K = Kern(vc, kind, n, J, fwhm, None, PATTERNS[which])
    vc.assume(K.fits(vc))
    jac = jacobian(vc, J, '')
    im = vc.mat('im', (ni, ni))
    if signs:
        w = weight_map(vc, 'wt', (ni, ni))
        vc.assume(vc.Or(*[x > 0 for x in w.ravel()]))
    else:
        w = vc.mat('wt', (ni, ni), pos=True)
    f = fitter(kind, fwhm, pad_factor=pad, ap_rad=0)
    record(vc)
    b = (n - ni) // 2
    kim = dft(im, n, b)
    if npsf:
        pjac = jacobian(vc, J, 'p')
        ps = vc.np.zeros((npsf, npsf))
        kinds = set(low.values()) - {'+', '-'}
        a0 = vc.real('a0', pos=True)
        for k, (i, j) in enumerate(spots or [(i, j) for i in range(npsf) for j in range(npsf)]):
            if k and kinds:
                # nearly the same as the first: their difference is below the floor
                if kinds == {'zero'}:
                    ps[i, j] = a0
                else:
                    ps[i, j] = a0 - vc.real('a%d' % k, gen=lambda r: r.uniform(-2e-5, 2e-5))
            else:
                ps[i, j] = vc.real('a%d' % k, gen=lambda r: r.uniform(-0.3, 0.9)) if k else a0
        pb = (n - npsf) // 2
        kp = dft(ps, n, pb)
        kpsf = floored(vc, {k: kp[k] for k in set(K.at) | {(0, 0)}}, low)
        with Stub(vc):
            pobs = ngmix.Observation(ps, jacobian=pjac)
            obs = ngmix.Observation(im, weight=w, jacobian=jac, psf=pobs)
            o = vc.call(f.go, obs)
        drow, dcol = jac.row0 + b - pjac.row0 - pb, jac.col0 + b - pjac.col0 - pb
    else:
        fr = [x / (2 * math.pi) for x in freq(n)]
        kpsf = {(i, j): (sinc(fr[i]) * sinc(fr[j]), 0.0) for i in range(n) for j in range(n)}
        obs = ngmix.Observation(im, weight=w, jacobian=jac)
        o = vc.call(f.go, obs, no_psf=True)
        drow, dcol = jac.row0 + b, jac.col0 + b
    vc.true('accepted', o.ok)
    m, cov = expected(vc, K, n, kim, kpsf, phase(vc, n, drow, dcol), total_variance(vc, w), n / ni)
    judge(vc, o.value, m, cov, K.norm)
    vc.cover('end')


@unit('C30', cases=[('gauss', 2), ('ksigma', 2), ('gauss', 3), ('ksigma', 3), ('gauss', 1)], samples=40, nsamples=60, feas_ms=100, prove_ms=1500, budget=100,
      bound='transforms of 1-3 pixels on a side')
def refusal(vc, case):
    """a kernel that does not fit in the transform is refused"""
    import ngmix
    kind, n = case
    vc.opaque_fexp()
    J = jac_of(vc, True)
    fwhm = vc.real('fwhm', pos=True, gen=lambda r: math.exp(r.uniform(-2, 3)))
    pat = 'all' if n > 1 else 'centre'
    K = Kern(vc, kind, n, J, fwhm, None, PATTERNS[pat])
    vc.assume(vc.Not(K.fits(vc)))
    obs = ngmix.Observation(vc.np.zeros((n, n)) + 1.0, jacobian=jacobian(vc, J, ''))
    o = vc.call(fitter(kind, fwhm, pad_factor=1, ap_rad=0).go, obs, no_psf=True)
    vc.true('refused', o.name == 'FFTRangeError')
    vc.cover('end')


@unit('C30', cases=['not square', 'no psf', 'other wcs', 'same wcs', 'list', 'kernel', 'aliases'], samples=3)
def arguments(vc, case):
    """observations that cannot be measured are refused"""
    import ngmix
    J = jac_of(vc, False)
    jac = jacobian(vc, J, '')
    im = vc.mat('im', (2, 3) if case == 'not square' else (2, 2))
    record(vc)
    seen = []
    m = PM()
    vc.patch(m, '_gauss_kernels', lambda *a: seen.append('gauss') or stop())
    vc.patch(m, '_ksigma_kernels', lambda *a: seen.append('ksigma') or stop())
    if case == 'kernel':
        o = vc.call(m.PrePSFMom, 1.0, 'other')
        vc.true('unknown kernel refused', o.name == 'ValueError')
        return
    with Stub(vc):
        if case == 'aliases':
            obs = ngmix.Observation(im, jacobian=jac)
            for nm, want in (('ksigma', 'ksigma'), ('gauss', 'gauss'), ('pgauss', 'gauss')):
                del seen[:]
                o = vc.call(m.PrePSFMom(1.0, nm).go, obs, no_psf=True)
                vc.true('kernel of the name', o.name == 'Stop' and seen == [want])
            for cls, want in ((m.KSigmaMom, 'ksigma'), (m.PGaussMom, 'gauss'), (m.PrePSFGaussMom, 'gauss')):
                del seen[:]
                o = vc.call(cls(1.0).go, obs, no_psf=True)
                vc.true('kernel of the class', o.name == 'Stop' and seen == [want])
            return
        obs = ngmix.Observation(im, jacobian=jac)
        f = m.PGaussMom(vc.real('fwhm', pos=True), pad_factor=1)
        if case == 'no psf':
            vc.true('psf required', vc.call(f.go, obs).name == 'RuntimeError')
        elif case == 'not square':
            vc.true('square required', vc.call(f.go, obs).name == 'ValueError')
            vc.true('square required', vc.call(f.go, obs, no_psf=True).name == 'ValueError')
        elif case == 'list':
            o = ngmix.ObsList()
            o.append(obs)
            vc.true('one observation required', vc.call(f.go, o).name == 'ValueError')
        else:
            J2 = J
            if case == 'other wcs':
                J2 = [J[0], 0.0, 0.0, vc.real('ucol2', gen=lambda r: r.choice([-1, 1]) * r.uniform(0.5, 1.5))]
                vc.assume(abs(J2[3] - J[3]) > 1e-6)
                vc.assume(abs(J2[3]) > 0.1)
            obs.set_psf(ngmix.Observation(vc.mat('ps', (2, 2)), jacobian=jacobian(vc, J2, 'p')))
            o = vc.call(f.go, obs)
            vc.true('the same pixel transformation required', o.name == ('RuntimeError' if case == 'other wcs' else 'Stop'))


class Stop(Exception):
    pass


def stop():
    raise Stop()


def taper(t, m, h, C):
    """edge factor of the pixel t from the edge"""
    y = (t - m) / h + 3
    if C is not None:
        return 0.0 if y < -3 else 1.0 if y > 3 else C(y)
    return y


def triweight(y):
    return -5 * y ** 7 / 69984 + 7 * y ** 5 / 2592 - 35 * y ** 3 / 864 + 35 * y / 96 + 0.5


def edge(n, h):
    m = int(6 * h + 0.5)
    out = [1.0] * n
    for t in range(min(m + 1, n)):
        out[t] *= taper(t, m, h, triweight)
        out[n - 1 - t] *= taper(t, m, h, triweight)
    return out


@unit('C30', cases=[(0.0, 3, 4), (0.1, 3, 5), (0.3, 4, 7), (0.5, 2, 2), (1.0, 4, 8), (1.5, 6, 7)], samples=20, bound='six sizes of the edge')
def padded(vc, case):
    """what is transformed: the image, tapered at its edges and with zeros around it"""
    h, ni, n = case
    m = PM()
    im = vc.mat('im', (ni, ni))
    keep = [[im[i, j] for j in range(ni)] for i in range(ni)]
    got = []
    if not hasattr(m, '_zero_pad_and_compute_fft_impl') or not hasattr(m.fft, 'fftn'):
        from pyvc.engine import Unsupported
        raise Unsupported('no transform of a padded image')
    vc.patch(m.fft, 'fftn', lambda x: got.append(x) or x)
    r0, c0 = vc.reals('r0 c0')
    o = vc.call(m._zero_pad_and_compute_fft_impl, im, r0, c0, n, h)
    vc.true('accepted', o.ok)
    _, pr, pc = o.value
    b = (n - ni) // 2
    vc.eq('centre', pr, r0 + b)
    vc.eq('centre', pc, c0 + b)
    e = edge(ni, h) if h > 0 else [1.0] * ni
    x, = got
    vc.true('size', tuple(x.shape) == (n, n))
    for i in range(n):
        for j in range(n):
            p, q = i - b, j - b
            want = keep[p][q] * e[p] * e[q] if 0 <= p < ni and 0 <= q < ni else 0.0
            vc.eq('pixel', x[i, j], want)
    for i in range(ni):
        for j in range(ni):
            vc.eq('image untouched', im[i, j], keep[i][j])


def complexes(vc, name, n, nonzero=False):
    """any n complex numbers, and the functions giving their parts"""
    g = (lambda r: r.choice([-1, 1]) * r.uniform(0.3, 2)) if nonzero else None
    v = vc.symarr(name, n, {'re': dict(gen=g) if g else {}, 'im': {}})
    if vc.symbolic:
        from pyvc.cplx import CArr
        from pyvc import terms as T
        if nonzero:
            nr, ni = name + '.re', name + '.im'
            fact = lambda i: T.lt(T.ZERO, T.add(T.ipow(T.fn(nr, i), 2), T.ipow(T.fn(ni, i), 2)))
            vc.e.array_facts[nr] = vc.e.array_facts[ni] = fact
        z = CArr(v['re'], v['im'])
    else:
        z = v['re'] + 1j * v['im']
    return z, lambda k: v['re'][k], lambda k: v['im'][k]


NB_ARGS = ['kim', 'kpsf_im', 'dim', 'eff_pad_factor', 'fkf', 'fkr', 'fkp', 'fkc', 'mom_norm', 'tot_var']


@unit('C30', samples=60, prove_ms=3000)
def any_modes(vc):
    """sums and covariance over any number of modes"""
    import inspect
    f = PM()._measure_moments_fft_numba
    pf = getattr(f, 'py_func', f)
    if list(inspect.signature(pf).parameters) != NB_ARGS:
        if vc.symbolic:
            from pyvc.engine import Unsupported
            raise Unsupported('other arguments')
        from pyvc.vcbase import Skip
        raise Skip()
    n = vc.int('n', lo=1)
    kim, kr, ki = complexes(vc, 'kim', n)
    kpsf, pr, pi = complexes(vc, 'psf', n, nonzero=True)
    ker = vc.symarr('ker', n, {k: {} for k in ORDER})
    dim = vc.int('dim', lo=1)
    pad, norm, var = vc.real('pad', pos=True), vc.real('norm', pos=True), vc.real('var', pos=True)
    if not vc.symbolic:
        n, dim = int(n), int(dim)
    o = vc.call(f, kim, kpsf, dim, pad, *[ker[k] if vc.symbolic else ker[k].copy() for k in ('fkf', 'fkr', 'fkp', 'fkc')], norm, var)
    vc.true('accepted', o.ok)
    mom, cov, nrm = o.value
    vc.eq('norm', nrm, norm)
    d2 = dim * dim
    for a in range(2):
        vc.true('no centroid', vc.np.isnan(mom[a]))
        vc.eq('centroid variance', cov[a, a], 1.0)
    for a in range(4):
        A = ORDER[a]
        vc.eq('sum', mom[2 + a], vc.sum(n, lambda k: kr(k) * ker[A][k]) / d2, scale=1e3)
        for b in range(a, 4):
            B = ORDER[b]
            want = vc.sum(n, lambda k: ker[A][k] * ker[B][k] / (pr(k) * pr(k) + pi(k) * pi(k))) * var * pad * pad / (d2 * d2)
            sc = None if vc.symbolic else 100 * abs(vc.sum(n, lambda k: abs(ker[A][k] * ker[B][k]) / (pr(k) * pr(k) + pi(k) * pi(k))) * var * pad * pad / (d2 * d2))
            vc.eq('covariance', cov[2 + a, 2 + b], want, scale=sc)
            vc.eq('covariance', cov[2 + b, 2 + a], want, scale=sc)


def parts_of(vc, name, n):
    """any n complex numbers in an array of their own, some of them zero"""
    g = dict(gen=lambda r: r.choice([0, 0, 1, 1e-7, 1]) * r.uniform(-2, 2))
    a, b = vc.symarr(name + '.re', n, {None: g}), vc.symarr(name + '.im', n, {None: g})
    if vc.symbolic:
        from pyvc.cplx import CArr
        return CArr(a, b)
    return a + 1j * b


@unit('C30', samples=60, prove_ms=4000)
def phase_any(vc):
    """the phases that move the centre, at an arbitrary mode of transforms of any size"""
    m = PM()
    n = vc.int('n', 1, gen=lambda r: r.choice([1, 3, 16, 21]))
    i, j = vc.at('i', n), vc.at('j', n)
    cr, cc = vc.real('cr'), vc.real('cc')
    f = m.fft.fftfreq(n)
    p = m._compute_cen_phase_shift(cr, cc, n)
    vc.true('square', p.shape[0] == n and p.shape[1] == n)
    z = p[i, j]
    a, b = f[i] * (2.0 * math.pi * cr), f[j] * (2.0 * math.pi * cc)
    w = cm((vc.np.cos(a), vc.np.sin(a)), (vc.np.cos(b), vc.np.sin(b)))
    vc.eq('real part', z.real, w[0], scale=1.0)
    vc.eq('imaginary part', z.imag, w[1], scale=1.0)
    vc.cover('end')


@unit('C30', samples=100, prove_ms=4000)
def deconvolve_any(vc):
    """division by the transform of the point spread function, its small
    amplitudes raised, at an arbitrary one of any number of modes"""
    m = PM()
    n = vc.int('n', 1)
    k = vc.at('k', n)
    top = vc.real('top', pos=True)
    frac = vc.real('frac', pos=True, gen=lambda r: r.choice([1e-5, 1e-3]))
    kim, psf = parts_of(vc, 'kim', n), parts_of(vc, 'psf', n)
    x, q = (kim[k].real, kim[k].imag), (psf[k].real, psf[k].imag)
    o = vc.call(m._deconvolve_im_psf_inplace, kim, psf, top, frac)
    vc.true('accepted', o.ok)
    out, used, msk = o.value
    low = frac * top
    r2 = q[0] * q[0] + q[1] * q[1]
    if not vc.symbolic:
        vc.assume(abs(r2 / (low * low) - 1) > 1e-9)
    if vc.case(r2 == 0):
        vc.cover('nothing')
        q = low, 0.0
    elif vc.case(r2 <= low * low):
        vc.cover('low')
        r = vc.np.sqrt(r2)
        q = q[0] / r * low, q[1] / r * low
    vc.eq('psf, real part', used[k].real, q[0], scale=None if vc.symbolic else abs(q[0]) + abs(q[1]))
    vc.eq('psf, imaginary part', used[k].imag, q[1], scale=None if vc.symbolic else abs(q[0]) + abs(q[1]))
    w = cd(x, q)
    sc = None if vc.symbolic else abs(w[0]) + abs(w[1])
    vc.eq('real part', out[k].real, w[0], scale=sc)
    vc.eq('imaginary part', out[k].imag, w[1], scale=sc)


def scene(vc, nopsf_ok=True):
    """a random observation with its point spread function, and a fitter that suits it"""
    import random
    import numpy as np
    import ngmix
    r = random.Random(int(vc.real('seed', gen=lambda q: float(q.randrange(1 << 30)))))
    rs = np.random.RandomState(r.randrange(1 << 30))
    ni, npsf = r.choice([6, 7, 10, 13]), r.choice([5, 6, 9, 12])
    sc = r.choice([0.2, 0.263, 1.0])
    a = r.uniform(-0.05, 0.05)
    J = [sc * (1 + r.uniform(-.1, .1)), sc * a, sc * r.uniform(-0.05, 0.05), sc * r.choice([-1, 1]) * (1 + r.uniform(-.1, .1))]
    kind = r.choice(['gauss', 'ksigma'])
    pad = r.choice([1, 2, 2.5, 3, 4, 4, 4])
    n = int(max(ni, npsf) * pad)
    fwhm = (r.uniform(3.9, 6) if kind == 'gauss' else r.uniform(2.8, 4.5)) * sc * r.choice([1, 1, 1, 1, 1, 0.7])
    smooth = r.choice([0, 0, r.uniform(0.5, 2) * sc])
    ap = r.choice([0, 0.3, 0.7, 1.5])

    def jac(row, col):
        return ngmix.Jacobian(row=row, col=col, dvdrow=J[0], dvdcol=J[1], dudrow=J[2], dudcol=J[3])
    y, x = np.mgrid[:npsf, :npsf]
    pc = (npsf - 1) / 2 + r.uniform(-.5, .5), (npsf - 1) / 2 + r.uniform(-.5, .5)
    s = r.uniform(0.5, 1.3)
    ps = np.exp(-((y - pc[0]) ** 2 + (x - pc[1]) ** 2) / (2 * s * s)) * r.uniform(0.5, 2)
    im = rs.normal(size=(ni, ni)) + 1
    w = rs.uniform(0.2, 3, size=(ni, ni))
    w[rs.uniform(size=w.shape) < 0.1] = 0
    w[rs.uniform(size=w.shape) < 0.05] *= -1
    w[0, 0] = 1.0
    ij = jac((ni - 1) / 2 + r.choice([0, r.uniform(-1, 1)]), (ni - 1) / 2 + r.choice([0, r.uniform(-1, 1)]))
    pj = jac(*pc)
    no_psf = r.random() < 0.15
    obs = ngmix.Observation(im, weight=w, jacobian=ij, **({} if no_psf else dict(psf=ngmix.Observation(ps, jacobian=pj))))
    f = fitter(kind, fwhm, pad_factor=pad, ap_rad=ap, **({} if not smooth else dict(fwhm_smooth=smooth)))

    class S(object):
        pass
    S.__dict__
    o = S()
    o.r, o.rs, o.n, o.kind, o.fwhm, o.smooth, o.ap, o.J, o.ni, o.npsf, o.no_psf, o.obs, o.f, o.im, o.w, o.ps, o.ij, o.pj, o.jac, o.pad = \
        r, rs, n, kind, fwhm, smooth, ap, J, ni, npsf, no_psf, obs, f, im, w, ps, ij, pj, jac, pad
    if no_psf:
        o.n = int(ni * pad)
    return o


def direct(o, im):
    """what the moments have to be, summed in the image: every mode from the
    pixels themselves, wherever the zeros are put"""
    import numpy as np
    import ngmix
    from ngmix.fastexp_nb import fexp_arr
    n = o.n
    f = np.array(freq(n))
    vr, vco, ur, uc = o.J
    det = vr * uc - vco * ur
    fy, fx = f[:, None], f[None, :]
    v, u = (uc * fy - ur * fx) / det, (-vco * fy + vr * fx) / det
    q = v * v + u * u
    s = sigma_of(o.fwhm)
    msk = inside(o.kind, s, q)
    ex = lambda z: np.where(z > -LIM, fexp_arr(np.maximum(z, -LIM).ravel()).reshape(z.shape), 0.0)
    w0, d, d2 = profile(o.kind, s, q, ex)
    norm = norm_of(o.kind, s, 1 / abs(det))
    total = (w0[msk]).sum() * norm / n / n
    if abs(total - 1) > 1e-5:
        return None
    z = 1.0
    if o.smooth:
        t = sigma_of(o.smooth)
        c = t * t / 2 * q
        z = np.where(c < LIM, ex(-c), 0.0)
    fk = dict(fkf=norm * w0 * z, fkr=-norm * z * (4 * d + 4 * q * d2), fkp=-norm * 4 * (u * u - v * v) * d2 * z, fkc=-norm * 8 * u * v * d2 * z)

    def transform(a, r0, c0):
        ph_r = np.exp(-1j * f[:, None] * (np.arange(a.shape[0])[None, :] - r0))
        ph_c = np.exp(-1j * f[:, None] * (np.arange(a.shape[1])[None, :] - c0))
        return ph_r.dot(a).dot(ph_c.T)
    e = np.array(edge(o.ni, o.ap)) if o.ap > 0 else np.ones(o.ni)
    kim = transform(im * e[:, None] * e[None, :], o.ij.row0, o.ij.col0)
    if o.no_psf:
        sc = np.sinc(f / (2 * np.pi))
        kp = sc[:, None] * sc[None, :] + 0j
        # the image keeps the offset given by the padding
        amp = abs(kp[0, 0])
        b = (n - o.ni) // 2
        kim = kim * 1.0
    else:
        kp = transform(o.ps, o.pj.row0, o.pj.col0)
        amp = abs(kp[0, 0])
    a = np.abs(kp)
    kp = np.where(a > 1e-5 * amp, kp, np.where(a > 0, kp / np.where(a > 0, a, 1) * 1e-5 * amp, 1e-5 * amp))
    sums = np.full(6, np.nan)
    cov = np.zeros((6, 6))
    cov[0, 0] = cov[1, 1] = 1
    tot = (1 / o.w[o.w > 0]).sum()
    for i, A in enumerate(ORDER):
        sums[2 + i] = ((kim / kp).real * fk[A])[msk].sum() / n ** 2
        for j, B in enumerate(ORDER):
            cov[2 + i, 2 + j] = (fk[A] * fk[B] / abs(kp) ** 2)[msk].sum() * tot * (n / o.ni) ** 2 / n ** 4
    # the accuracy to expect: the last digits of the transforms, divided by the psf
    noise = {A: (abs(fk[A]) / abs(kp))[msk].sum() / n ** 2 * np.abs(im).sum() for A in ORDER}
    return sums, cov, norm, noise


def contents(o):
    return [x.copy() for x in (o.obs.image, o.obs.weight)] + ([] if o.no_psf else [o.obs.psf.image.copy(), o.obs.psf.weight.copy()])


@unit('C30', prove=False, samples=60)
def whole(vc):
    """whole measurements: any size, padding and edge, against direct sums over the pixels"""
    import numpy as np
    import ngmix
    o = scene(vc)
    want = direct(o, o.im)
    before = contents(o)
    got = vc.call(o.f.go, o.obs, no_psf=o.no_psf)
    if want is None:
        vc.true('refused', got.name == 'FFTRangeError')
        return
    sums, cov, norm, noise = want
    vc.true('accepted', got.ok)
    res = got.value
    for x, y in zip(before, contents(o)):
        vc.true('inputs untouched', np.array_equal(x, y))
    vc.eq('norm', res['sums_norm'], norm)
    for i, A in enumerate(ORDER):
        vc.eq('sum ' + A, res['sums'][2 + i], sums[2 + i], tol=1e-8, scale=noise[A])
        for j, B in enumerate(ORDER):
            vc.eq('covariance', res['sums_cov'][2 + i, 2 + j], cov[2 + i, 2 + j], tol=1e-6, scale=np.sqrt(cov[2 + i, 2 + i] * cov[2 + j, 2 + j]))
    again = ngmix.moments.make_mom_result(res['sums'].copy(), res['sums_cov'].copy(), sums_norm=res['sums_norm'])
    for k in ('flags', 'flux', 's2n', 'T', 'e1', 'e2'):
        if k in again:
            vc.eq('result %s' % k, res[k], again[k], tol=1e-12)
    # linear in the image
    im2 = o.rs.normal(size=o.im.shape)
    a, b = o.r.uniform(-2, 2), o.r.uniform(-2, 2)
    other = o.obs.copy()
    other.image = im2
    both = o.obs.copy()
    both.image = a * o.im + b * im2
    s2, s3 = o.f.go(other, no_psf=o.no_psf)['sums'], o.f.go(both, no_psf=o.no_psf)['sums']
    for i, A in enumerate(ORDER):
        vc.eq('linear', s3[2 + i], a * res['sums'][2 + i] + b * s2[2 + i], tol=1e-8, scale=noise[A] * (1 + abs(a) + abs(b)))


def spoil(res):
    """write over everything in the result"""
    import numpy as np
    for k, v in res.items():
        if isinstance(v, np.ndarray) and v.flags.writeable:
            v[...] = -77
        elif isinstance(v, dict):
            spoil(v)


def same_result(vc, nm, a, b):
    import numpy as np
    vc.true(nm + ': keys', set(a) == set(b))
    for k in a:
        x, y = a[k], b.get(k)
        if isinstance(x, dict):
            for q in x:
                vc.true('%s: %s' % (nm, q), np.array_equal(x[q], y[q], equal_nan=True))
        elif isinstance(x, np.ndarray):
            vc.true('%s: %s' % (nm, k), np.array_equal(x, y, equal_nan=True))
        elif isinstance(x, str):
            vc.true('%s: %s' % (nm, k), x == y)
        else:
            vc.true('%s: %s' % (nm, k), x == y or (x != x and y != y))


@unit('C30', prove=False, samples=40)
def caches(vc):
    """the same numbers with caches off, on and warm, whatever was measured before"""
    import numpy as np
    m = PM()
    o, p = scene(vc), None
    if direct(o, o.im) is None:
        return
    # others that share all but one of the ingredients
    others = []
    w2 = o.obs.copy()
    w2.image = o.im + 1e-7
    others.append((o.f, w2, o.no_psf))
    k = dict(pad_factor=o.pad, ap_rad=o.ap)
    others.append((fitter(o.kind, o.fwhm * (1 + 1e-9), **dict(k, fwhm_smooth=o.smooth)), o.obs, o.no_psf))
    others.append((fitter(o.kind, o.fwhm, **dict(k, fwhm_smooth=o.smooth * 1.1 + 0.01)), o.obs, o.no_psf))
    others.append((fitter('ksigma' if o.kind == 'gauss' else 'gauss', o.fwhm, **k), o.obs, o.no_psf))
    others.append((fitter(o.kind, o.fwhm, pad_factor=o.pad, ap_rad=o.ap + 0.2, fwhm_smooth=o.smooth), o.obs, o.no_psf))
    others.append((fitter(o.kind, o.fwhm, pad_factor=o.pad + 1, ap_rad=o.ap, fwhm_smooth=o.smooth), o.obs, o.no_psf))
    moved = o.obs.copy()
    moved.jacobian = o.jac(o.ij.row0 + 0.25, o.ij.col0)
    others.append((o.f, moved, o.no_psf))
    others.append((o.f, o.obs, True))
    runs = [(o.f, o.obs, o.no_psf)] + others
    m.turn_off_fft_caching()
    m.turn_off_kernel_caching()

    def go(i):
        f, ob, nops = runs[i]
        return vc.call(f.go, ob, return_kernels=True, no_psf=nops)
    clean = [go(i) for i in range(len(runs))]
    before = contents(o)
    try:
        if o.r.random() < 0.8:
            m.turn_on_fft_caching()
        if o.r.random() < 0.8:
            m.turn_on_kernel_caching()
        order = list(range(len(runs))) * 3
        o.r.shuffle(order)
        for i in order:
            x = go(i)
            vc.true('same outcome', x.name == clean[i].name)
            if x.ok:
                same_result(vc, 'cached', clean[i].value, x.value)
                # the caller may do what it likes with its result
                spoil(x.value)
        for x, y in zip(before, contents(o)):
            vc.true('inputs untouched', np.array_equal(x, y))
    finally:
        m.turn_off_fft_caching()
        m.turn_off_kernel_caching()
    x = go(0)
    vc.true('same outcome', x.name == clean[0].name)
    if x.ok:
        same_result(vc, 'caches off again', clean[0].value, x.value)
