"""Coordinate transformations, pixel lists and observations."""
from pyvc.unit import unit

DERIV = ['dvdrow', 'dvdcol', 'dudrow', 'dudcol']


def derivs(vc, tag=''):
    d = vc.reals(' '.join(x + tag for x in DERIV))
    det = d[0] * d[3] - d[1] * d[2]
    return d, det


def some_jacobian(vc, tag='', nonsing=True):
    import ngmix
    d, det = derivs(vc, tag)
    if nonsing:
        vc.assume(det * det > 1e-2)
    r0, c0 = vc.reals('row0%s col0%s' % (tag, tag))
    return ngmix.Jacobian(row=r0, col=c0, **dict(zip(DERIV, d)))


def weight_map(vc, name, shape):
    """any sign pattern"""
    return vc.mat(name, shape, gen=lambda r: r.choice([0.0, 0.0, -r.random(), r.random(), r.random() * 3, r.random() * 3]))


def some_obs(vc, shape, tag='', positive=False, jac=None, **k):
    import ngmix
    im = vc.mat('im' + tag, shape)
    if positive:
        w = vc.mat('wt' + tag, shape, pos=True)
    else:
        w = weight_map(vc, 'wt' + tag, shape)
        vc.assume(vc.Or(*[x > 0 for x in w.ravel()]))
    if jac is None:
        jac = some_jacobian(vc, tag)
    return ngmix.Observation(im, weight=w, jacobian=jac, **k)


def pixels_match(vc, px, im, w, jac, ignore=True, nm='pixel'):
    """px is the conversion of im, w, jac"""
    nr, nc = im.shape
    r0, c0 = jac.row0, jac.col0
    det = jac.dvdrow * jac.dudcol - jac.dvdcol * jac.dudrow
    area = vc.ite(det > 0, det, -det)
    k = 0
    for i in range(nr):
        for j in range(nc):
            pos = vc.case(w[i, j] > 0)
            if ignore and not pos:
                continue
            vc.true(nm + ' list is long enough', k < px.size)
            if k >= px.size:
                return
            p = px[k]
            k += 1
            vc.eq(nm + ' v', p['v'], jac.dvdrow * (i - r0) + jac.dvdcol * (j - c0), scale=1)
            vc.eq(nm + ' u', p['u'], jac.dudrow * (i - r0) + jac.dudcol * (j - c0), scale=1)
            vc.eq(nm + ' value', p['val'], im[i, j])
            vc.eq(nm + ' area', p['area'], area, scale=1)
            if pos:
                vc.eq(nm + ' inverse error squared', p['ierr'] * p['ierr'], w[i, j])
                vc.le(nm + ' inverse error', 0, p['ierr'])
            else:
                vc.eq(nm + ' inverse error of an unusable pixel', p['ierr'], 0.0)
    vc.true(nm + ' list has no other pixels', k == px.size)


# ------------------------------------------------------------------ C10

SHAPES = [(1, 1), (1, 3), (3, 1), (2, 2), (2, 3)]


@unit('C10', cases=SHAPES, thorough=[(3, 2), (2, 4), (3, 3)], cost=3, samples=60,
      bound='images of up to 6 pixels (9 in the thorough tier), every sign pattern of the weights')
def make(vc, shape):
    from ngmix.pixels import make_pixels
    im = vc.mat('im', shape)
    w = weight_map(vc, 'wt', shape)
    jac = some_jacobian(vc)
    ignore = vc.case(vc.bool('ignore'))
    im0, w0 = im.copy(), w.copy()
    anypos = vc.case(vc.Or(*[x > 0 for x in w.ravel()]))
    if vc.case(vc.bool('default')):
        ignore = True
        r = vc.call(make_pixels, im, w, jac)
    else:
        r = vc.call(make_pixels, im, w, jac, ignore_zero_weight=ignore)
    if ignore and not anypos:
        vc.true('no usable pixels is an error', not r.ok and r.name == 'GMixFatalError')
        return
    vc.true('made', r.ok)
    pixels_match(vc, r.value, im0, w0, jac, ignore)
    vc.eq('image unchanged', im, im0)
    vc.eq('weight unchanged', w, w0)
    vc.cover('end')


def any_size(vc):
    """an image and a weight map of any size"""
    nr, nc = vc.int('nr', 1), vc.int('nc', 1)
    im = vc.symarr('im', (nr, nc), {None: {}})
    w = vc.symarr('wt', (nr, nc), {None: dict(gen=lambda r: r.choice([0.0, -r.random(), r.random(), r.random() * 3]))})
    return nr, nc, im, w


def pixel_at(vc, p, jac, i, j):
    det = jac.dvdrow * jac.dudcol - jac.dvdcol * jac.dudrow
    vc.eq('v', p['v'], jac.dvdrow * (i - jac.row0) + jac.dvdcol * (j - jac.col0), scale=1)
    vc.eq('u', p['u'], jac.dudrow * (i - jac.row0) + jac.dudcol * (j - jac.col0), scale=1)
    vc.eq('area', p['area'], vc.ite(det > 0, det, -det), scale=1)


@unit('C10', samples=60)
def coords_any(vc):
    """any number of rows and columns: one entry for each pixel, in row-major order"""
    from ngmix.pixels import make_coords
    nr, nc = vc.int('nr', 1), vc.int('nc', 1)
    jac = some_jacobian(vc)
    c = make_coords((nr, nc), jac)
    vc.true('one entry per pixel', c.size == nr * nc)
    i, j = vc.at('i', nr), vc.at('j', nc)
    pixel_at(vc, c[i * nc + j], jac, i, j)
    vc.cover('end')


@unit('C10', cases=[0, 1], samples=80)
def make_any(vc, ignore):
    """any number of rows and columns and any weights: each usable pixel once, in row-major order"""
    from ngmix.pixels import make_pixels
    nr, nc, im, w = any_size(vc)
    im0, w0 = im.copy(), w.copy()
    jac = some_jacobian(vc)
    r = vc.call(make_pixels, im, w, jac, ignore_zero_weight=bool(ignore))
    total = count_usable(vc, nr, nc, w0) if ignore else nr * nc
    i, j = vc.at('i', nr), vc.at('j', nc)
    if not r.ok:
        vc.true('only without a usable pixel', bool(ignore) and r.name == 'GMixFatalError')
        vc.true('there is none', total == 0)
        vc.cover('none')
        return
    vc.eq('image unchanged', im[i, j], im0[i, j])
    vc.eq('weight unchanged', w[i, j], w0[i, j])
    converted(vc, r.value, nr, nc, im0, w0, jac, ignore, i, j)
    vc.cover('end')


def count_usable(vc, nr, nc, w):
    """the pixels with positive weight in the first nr rows"""
    return vc.sum(nr, lambda a: vc.sum(nc, lambda b: vc.ite(w[a, b] > 0, 1, 0)))


def converted(vc, px, nr, nc, im, w, jac, ignore, i, j):
    """px is the conversion of an image of any size: its length, and the entry of an arbitrary pixel (i, j), which is
    as far in the list as there are usable pixels before (i, j)"""
    vc.true('as many as there are usable pixels', px.size == (count_usable(vc, nr, nc, w) if ignore else nr * nc))
    if vc.case(w[i, j] > 0):
        e = vc.fn('sqrt', w[i, j])
    elif ignore:
        return
    else:
        e = 0.0
    k = i * nc + j
    if ignore:
        k = count_usable(vc, i, nc, w) + vc.sum(j, lambda b: vc.ite(w[i, b] > 0, 1, 0))
    p = px[k if vc.symbolic else int(k)]
    vc.eq('value', p['val'], im[i, j])
    vc.eq('inverse error', p['ierr'], e)
    pixel_at(vc, p, jac, i, j)


@unit('C10', cases=[(2, 2), (1, 4), (3, 2)], samples=80, prove=False,
      bound='run-time only: floating point nan is outside the real-number semantics')
def nan_weights(vc, shape):
    """a nan weight is not positive"""
    import numpy as np
    from ngmix.pixels import make_pixels
    im = vc.mat('im', shape)
    w = vc.mat('wt', shape, gen=lambda r: r.choice([float('nan'), 0.0, r.random(), float('inf')]))
    jac = some_jacobian(vc)
    for ignore in (True, False):
        if ignore and not (w > 0).any():
            continue
        px = make_pixels(im, w, jac, ignore_zero_weight=ignore)
        pos = w > 0
        want = im[pos] if ignore else im.ravel()
        vc.eq('values in order', px['val'], want)
        vc.eq('inverse errors', px['ierr'], np.sqrt(np.where(pos, w, 0.0))[pos] if ignore
              else np.sqrt(np.where(pos, w, 0.0)).ravel())


@unit('C10', cases=[(1, 1), (2, 3), (3, 2), (1, 4)], samples=30, bound='up to 6 pixels')
def coords(vc, shape):
    from ngmix.pixels import make_coords
    jac = some_jacobian(vc)
    c = make_coords(shape, jac)
    nr, nc = shape
    vc.true('one entry per pixel', c.size == nr * nc)
    det = jac.dvdrow * jac.dudcol - jac.dvdcol * jac.dudrow
    area = vc.ite(det > 0, det, -det)
    for i in range(nr):
        for j in range(nc):
            p = c[i * nc + j]
            vc.eq('v', p['v'], jac.dvdrow * (i - jac.row0) + jac.dvdcol * (j - jac.col0), scale=1)
            vc.eq('u', p['u'], jac.dudrow * (i - jac.row0) + jac.dudcol * (j - jac.col0), scale=1)
            vc.eq('area', p['area'], area, scale=1)
    vc.cover('end')


# ------------------------------------------------------------------ C11

class WCS(object):
    pass


@unit('C11', cases=['row', 'xy', 'rowwcs', 'xywcs', 'diag', 'diagxy', 'unit', 'unitxy'], samples=60)
def construct(vc, how):
    """the four derivatives, the centre, the determinant, area and scale, whatever the constructor"""
    import ngmix
    d, det = derivs(vc)
    dvdrow, dvdcol, dudrow, dudcol = d
    r0, c0 = vc.reals('row0 col0')
    s = vc.real('scale')
    wcs = WCS()
    wcs.dudx, wcs.dudy, wcs.dvdx, wcs.dvdy = dudcol, dudrow, dvdcol, dvdrow
    if how == 'row':
        j = ngmix.Jacobian(row=r0, col=c0, dvdrow=dvdrow, dvdcol=dvdcol, dudrow=dudrow, dudcol=dudcol)
    elif how == 'xy':
        j = ngmix.Jacobian(x=c0, y=r0, dudx=dudcol, dudy=dudrow, dvdx=dvdcol, dvdy=dvdrow)
    elif how == 'rowwcs':
        j = ngmix.Jacobian(row=r0, col=c0, wcs=wcs)
    elif how == 'xywcs':
        j = ngmix.Jacobian(x=c0, y=r0, wcs=wcs)
    else:
        dvdcol = dudrow = 0.0
        dvdrow = dudcol = s if how.startswith('diag') else 1.0
        det = dvdrow * dudcol
        if how == 'diag':
            j = ngmix.DiagonalJacobian(scale=s, row=r0, col=c0)
        elif how == 'diagxy':
            j = ngmix.DiagonalJacobian(scale=s, x=c0, y=r0)
        elif how == 'unit':
            j = ngmix.UnitJacobian(row=r0, col=c0)
        else:
            j = ngmix.UnitJacobian(x=c0, y=r0)
    consistent(vc, j, r0, c0, dvdrow, dvdcol, dudrow, dudcol)
    c = j.copy()
    consistent(vc, c, r0, c0, dvdrow, dvdcol, dudrow, dudcol)
    vc.true('copy equal', bool(c == j) is True)
    # moving the centre
    r1, c1 = vc.reals('row1 col1')
    if vc.case(vc.bool('rc')):
        c.set_cen(row=r1, col=c1)
    else:
        c.set_cen(x=c1, y=r1)
    consistent(vc, c, r1, c1, dvdrow, dvdcol, dudrow, dudcol)
    consistent(vc, j, r0, c0, dvdrow, dvdcol, dudrow, dudcol)
    import copy
    for f in (copy.copy, copy.deepcopy):
        e = f(j)
        consistent(vc, e, r0, c0, dvdrow, dvdcol, dudrow, dudcol)
        e.set_cen(row=r1, col=c1)
        consistent(vc, j, r0, c0, dvdrow, dvdcol, dudrow, dudcol)
    vc.cover('end')


def consistent(vc, j, r0, c0, dvdrow, dvdcol, dudrow, dudcol):
    det = dvdrow * dudcol - dvdcol * dudrow
    sc = None if vc.symbolic else abs(dvdrow * dudcol) + abs(dvdcol * dudrow)
    vc.eq('centre', j.get_cen(), [r0, c0])
    vc.eq('centre', [j.row0, j.col0], [r0, c0])
    vc.eq('derivatives', [j.dvdrow, j.dvdcol, j.dudrow, j.dudcol], [dvdrow, dvdcol, dudrow, dudcol])
    vc.eq('determinant', j.det, det, scale=sc)
    ad = vc.ite(det > 0, det, -det)
    vc.eq('area', j.area, ad, scale=sc)
    vc.eq('scale', j.scale * j.scale, ad, scale=sc)
    vc.le('scale', 0, j.scale)
    vc.eq('getters', [j.get_row0(), j.get_col0(), j.get_dvdrow(), j.get_dvdcol(), j.get_dudrow(), j.get_dudcol(),
                      j.get_det(), j.get_scale(), j.get_area()],
          [j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol, j.det, j.scale, j.area])


@unit('C11', samples=100)
def inverse(vc):
    """forward and backward cancel; the centre is the origin; the map is affine with the stated derivatives"""
    j = some_jacobian(vc)
    row, col, v, u = vc.reals('row col v u')
    a, b = j.get_vu(row, col)
    sc = None if vc.symbolic else 100.0
    vc.eq('v', a, j.dvdrow * (row - j.row0) + j.dvdcol * (col - j.col0), scale=sc)
    vc.eq('u', b, j.dudrow * (row - j.row0) + j.dudcol * (col - j.col0), scale=sc)
    vc.eq('call is get_vu', j(row, col), [a, b])
    r, c = j.get_rowcol(a, b)
    vc.eq('row returns', r, row, scale=sc)
    vc.eq('col returns', c, col, scale=sc)
    r, c = j.get_rowcol(v, u)
    a, b = j.get_vu(r, c)
    vc.eq('v returns', a, v, scale=sc)
    vc.eq('u returns', b, u, scale=sc)
    a, b = j.get_vu(j.row0, j.col0)
    vc.eq('centre is the origin', [a, b], [0.0, 0.0], scale=sc)
    r, c = j.get_rowcol(0.0, 0.0)
    vc.eq('origin is the centre', [r, c], [j.row0, j.col0], scale=sc)
    vc.cover('end')


@unit('C11', cases=[1, 3], samples=30, bound='arrays of 1 and 3 elements')
def inverse_arrays(vc, n):
    j = some_jacobian(vc)
    row, col = vc.vec('row', n), vc.vec('col', n)
    row0, col0 = row.copy(), col.copy()
    v, u = j.get_vu(row, col)
    r, c = j.get_rowcol(v, u)
    for i in range(n):
        a, b = j.get_vu(row[i], col[i])
        vc.eq('element by element', [v[i], u[i]], [a, b], scale=1)
        vc.eq('returns', [r[i], c[i]], [row[i], col[i]], scale=100)
    vc.eq('inputs unchanged', row, row0)
    vc.eq('inputs unchanged', col, col0)
    vc.cover('end')


@unit('C11', samples=40)
def arrays_any(vc):
    """arrays of any length: element by element, and back"""
    j = some_jacobian(vc)
    n = vc.int('n', 1)
    row, col = vc.symarr('row', n, {None: {}}), vc.symarr('col', n, {None: {}})
    row0, col0 = row.copy(), col.copy()
    v, u = j.get_vu(row, col)
    r, c = j.get_rowcol(v, u)
    i = vc.at('i', n)
    vc.eq('v', v[i], j.dvdrow * (row0[i] - j.row0) + j.dvdcol * (col0[i] - j.col0), scale=10)
    vc.eq('u', u[i], j.dudrow * (row0[i] - j.row0) + j.dudcol * (col0[i] - j.col0), scale=10)
    vc.eq('returns', [r[i], c[i]], [row0[i], col0[i]], scale=100)
    vc.eq('inputs unchanged', [row[i], col[i]], [row0[i], col0[i]])
    vc.cover('end')


@unit('C11', samples=60)
def bad_arguments(vc):
    """missing keywords and wrong types are errors"""
    import ngmix
    kw = dict(row=1.0, col=2.0, dvdrow=1.0, dvdcol=0.1, dudrow=0.2, dudcol=1.0)
    for k in kw:
        d = dict(kw)
        del d[k]
        r = vc.call(ngmix.Jacobian, **d)
        vc.true('missing keyword', not r.ok)
    kw = dict(x=1.0, y=2.0, dudx=1.0, dudy=0.1, dvdx=0.2, dvdy=1.0)
    for k in kw:
        d = dict(kw)
        del d[k]
        r = vc.call(ngmix.Jacobian, **d)
        vc.true('missing keyword', not r.ok)
    for c in (ngmix.DiagonalJacobian, ngmix.UnitJacobian):
        for d in ({}, dict(row=1.0), dict(x=1.0)):
            vc.true('no centre', not vc.call(c, **d).ok)
    j = ngmix.UnitJacobian(row=1.0, col=2.0)
    r = vc.call(j.set_cen, foo=1)
    vc.true('no centre', not r.ok)
    vc.eq('unchanged', j.get_cen(), [1.0, 2.0])
    r = vc.call(lambda: j == 3)
    vc.true('compared with something else', not r.ok and r.name == 'ValueError')


@unit('C11', cases=DERIV + ['row0', 'col0'], samples=60)
def equality(vc, which):
    """equal exactly when every number is equal"""
    import ngmix
    d, det = derivs(vc)
    r0, c0 = vc.reals('row0 col0')
    x = vc.real('x')
    kw = dict(row=r0, col=c0, **dict(zip(DERIV, d)))
    a = ngmix.Jacobian(**kw)
    key = dict(row0='row', col0='col').get(which, which)
    old = kw[key]
    kw[key] = x
    b = ngmix.Jacobian(**kw)
    same = vc.case(x == old)
    vc.true('equality', bool(a == b) == same)
    vc.cover('end')


@unit('C11', samples=60)
def singular(vc):
    """a position cannot be mapped back through a singular transformation"""
    import ngmix
    a, b, v, u, r0, c0 = vc.reals('a b v u row0 col0')
    k = 2.0 if vc.case(vc.bool('two')) else 0.0
    j = ngmix.Jacobian(row=r0, col=c0, dvdrow=a, dvdcol=k * a, dudrow=b, dudcol=k * b)
    vc.eq('determinant', j.det, 0.0)
    vc.eq('scale', j.scale, 0.0)
    r = vc.call(j.get_rowcol, v, u)
    vc.true('refused', not r.ok)
    vc.cover('end')


# ------------------------------------------------------------------ C12

MAPS = ['bmask', 'ormask', 'noise', 'mfrac']
PARTS = ['image', 'weight'] + MAPS


def gmix1(vc, tag=''):
    import ngmix
    r, c, f = vc.reals('gmr%s gmc%s gmf%s' % (tag, tag, tag))
    T = vc.real('gmT' + tag, pos=True)
    return ngmix.GMixModel([r, c, 0.1, -0.2, T, f], 'gauss')


def full_obs(vc, shape, tag='', positive=False, **k):
    """an observation that has every part"""
    import ngmix
    psf = ngmix.Observation(vc.mat('psf' + tag, (1, 2)))
    psf.set_gmix(gmix1(vc, 'p' + tag))
    parts = {nm: vc.mat(nm + tag, shape) for nm in ('noise', 'mfrac')}
    for nm in ('bmask', 'ormask'):
        m = vc.np.zeros(shape, dtype='i4')
        m[0, 0] = 3
        parts[nm] = m
    return some_obs(vc, shape, tag, positive=positive, psf=psf, gmix=gmix1(vc, tag),
                    meta=dict(a=1, b=[2, 3]), **parts, **k)


def snap(obs):
    d = {}
    for nm in PARTS:
        if nm in ('image', 'weight') or getattr(obs, 'has_' + nm)():
            d[nm] = getattr(obs, nm).copy()
    j = obs.jacobian
    d['jacobian'] = [j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol, j.det, j.scale]
    if obs.has_gmix():
        d['gmix'] = obs.gmix.get_full_pars()
    if obs.has_psf():
        d['psf'] = obs.psf.image.copy()
        if obs.psf.has_gmix():
            d['psf gmix'] = obs.psf.gmix.get_full_pars()
        d['psf object'] = obs.psf
    import copy
    d['meta'] = copy.deepcopy(obs.meta)
    d['flags'] = (obs.store_pixels, obs.ignore_zero_weight)
    return d


def same(vc, a, b, but=(), nm='unchanged'):
    for k in sorted(set(a) | set(b)):
        if k in but:
            continue
        vc.true('%s: %s present' % (nm, k), k in a and k in b)
        if k in a and k in b:
            if k in ('meta', 'flags'):
                vc.true('%s: %s' % (nm, k), a[k] == b[k])
            elif k == 'psf object':
                continue
            else:
                vc.eq('%s: %s' % (nm, k), a[k], b[k])


def consistent_obs(vc, obs, nm='pixel'):
    if obs.store_pixels:
        vc.true('pixels stored', obs.pixels is not None)
        pixels_match(vc, obs.pixels, obs.image, obs.weight, obs.jacobian, obs.ignore_zero_weight, nm)
        vc.true('pixels are read only', not obs.pixels.flags['WRITEABLE'])
    else:
        vc.true('no pixels', obs.pixels is None)
    for k in PARTS:
        if k in ('image', 'weight') or getattr(obs, 'has_' + k)():
            m = getattr(obs, k)
            vc.true('map has the shape of the image', m.shape == obs.image.shape)
            vc.true('map is read only', not m.flags['WRITEABLE'])
    j = obs.jacobian
    consistent(vc, j, j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol)
    vc.true('transformation is read only', not j.get_data().flags['WRITEABLE'])


@unit('C12', cases=[(1, 2), (2, 2)], samples=60, bound='images of 2 and 4 pixels', cost=3)
def constructor(vc, shape):
    """every argument ends up in the observation; defaults; inputs are not shared in a writeable way"""
    import ngmix
    im = vc.mat('im', shape)
    if vc.case(vc.bool('weighted')):
        w = weight_map(vc, 'wt', shape)
    else:
        w = None
    jac = some_jacobian(vc) if vc.case(vc.bool('hasjac')) else None
    store = vc.case(vc.bool('store'))
    ignore = vc.case(vc.bool('ignore'))
    r = vc.call(ngmix.Observation, im, weight=w, jacobian=jac, store_pixels=store, ignore_zero_weight=ignore)
    if w is not None and store and ignore:
        if not vc.case(vc.Or(*[x > 0 for x in w.ravel()])):
            vc.true('no usable pixel is an error', not r.ok)
            return
    vc.true('made', r.ok)
    obs = r.value
    vc.eq('image', obs.image, im)
    vc.eq('weight', obs.weight, w if w is not None else vc.np.ones(shape))
    if jac is None:
        jac = ngmix.UnitJacobian(row=(shape[0] - 1) / 2.0, col=(shape[1] - 1) / 2.0)
    consistent(vc, obs.jacobian, jac.row0, jac.col0, jac.dvdrow, jac.dvdcol, jac.dudrow, jac.dudcol)
    consistent_obs(vc, obs)
    for k in MAPS + ['gmix', 'psf', 'psf_gmix']:
        vc.true('nothing else attached', not getattr(obs, 'has_' + k)())
    for f in (obs.get_gmix, obs.get_psf, obs.get_psf_gmix):
        vc.true('missing part is an error', not vc.call(f).ok)
    vc.true('meta', obs.meta == {})
    # the transformation is copied
    if vc.symbolic or True:
        jac.set_cen(row=100.0, col=50.0)
        consistent_obs(vc, obs)
    vc.cover('end')


def any_map(vc, name, nr, nc, weight=False):
    gen = (lambda r: r.choice([0.0, -r.random(), r.random(), r.random() * 3])) if weight else None
    return vc.symarr(name, (nr, nc), {None: dict(gen=gen) if gen else {}})


class Any(object):
    """an observation of any size with every part, and what it holds"""

    def __init__(self, vc, **k):
        import ngmix
        self.vc = vc
        self.nr, self.nc = nr, nc = vc.int('nr', 1), vc.int('nc', 1)
        self.i, self.j = vc.at('i', nr), vc.at('j', nc)
        self.parts = {nm: any_map(vc, nm, nr, nc, nm == 'weight') for nm in PARTS}
        self.jac = some_jacobian(vc)
        self.pn, self.pm = vc.int('pnr', 1), vc.int('pnc', 1)
        self.pi, self.pj = vc.at('pi', self.pn), vc.at('pj', self.pm)
        self.psfim = any_map(vc, 'psfim', self.pn, self.pm)
        self.psfjac = some_jacobian(vc, 'p')
        self.gm, self.pgm = gmix1(vc), gmix1(vc, 'p')
        self.meta = dict(a=1, b=[2, 3])
        self.psf = ngmix.Observation(self.psfim, jacobian=self.psfjac, gmix=self.pgm)
        d = {nm: m.copy() for nm, m in self.parts.items()}
        self.r = vc.call(ngmix.Observation, d.pop('image'), weight=d.pop('weight'), jacobian=self.jac, psf=self.psf,
                         gmix=self.gm, meta=dict(a=1, b=[2, 3]), **d, **k)
        self.store, self.ignore = k.get('store_pixels', True), k.get('ignore_zero_weight', True)
        self.gm = self.gm.copy()

    def usable(self, w=None):
        return count_usable(self.vc, self.nr, self.nc, self.parts['weight'] if w is None else w)

    def check(self, obs, psf=True, gmix=True):
        """obs holds these parts, is consistent and read-only"""
        vc = self.vc
        i, j = self.i, self.j
        for nm in PARTS:
            if self.parts[nm] is None:
                vc.true('%s removed' % nm, not getattr(obs, 'has_' + nm)())
                continue
            m = getattr(obs, nm)
            vc.true('%s: shape' % nm, vc.And(m.shape[0] == self.nr, m.shape[1] == self.nc))
            vc.eq('%s: any pixel' % nm, m[i, j], self.parts[nm][i, j])
            vc.true('%s: read only' % nm, not m.flags['WRITEABLE'])
        jc, jac = obs.jacobian, self.jac
        consistent(vc, jc, jac.row0, jac.col0, jac.dvdrow, jac.dvdcol, jac.dudrow, jac.dudcol)
        vc.true('transformation is read only', not jc.get_data().flags['WRITEABLE'])
        vc.true('settings', obs.store_pixels == self.store and obs.ignore_zero_weight == self.ignore)
        if self.store:
            vc.true('pixels are read only', not obs.pixels.flags['WRITEABLE'])
            converted(vc, obs.pixels, self.nr, self.nc, self.parts['image'], self.parts['weight'], jac, self.ignore, i, j)
        else:
            vc.true('no pixels', obs.pixels is None)
        vc.true('meta', obs.meta == self.meta)
        if self.gm is None:
            vc.true('gmix removed', not obs.has_gmix())
        else:
            vc.eq('gmix', obs.gmix.get_full_pars(), self.gm.get_full_pars())
        if self.psf is None:
            vc.true('psf removed', not obs.has_psf())
            return
        p = obs.psf
        vc.true('psf: shape', vc.And(p.image.shape[0] == self.pn, p.image.shape[1] == self.pm))
        vc.eq('psf: any pixel', p.image[self.pi, self.pj], self.psfim[self.pi, self.pj])
        vc.eq('psf: weight', p.weight[self.pi, self.pj], 1.0)
        if self.pgm is None:
            vc.true('psf has no gmix', not p.has_gmix())
        else:
            vc.eq('psf: gmix', p.gmix.get_full_pars(), self.pgm.get_full_pars())


@unit('C12', samples=60)
def constructor_any(vc):
    """any image size: every argument ends up in the observation, refused only without usable pixels"""
    store, ignore = vc.case(vc.bool('store')), vc.case(vc.bool('ignore'))
    a = Any(vc, store_pixels=store, ignore_zero_weight=ignore)
    if not a.r.ok:
        vc.true('refused only without usable pixels', store and ignore and a.r.name == 'GMixFatalError')
        vc.true('there is none', a.usable() == 0)
        return
    if store and ignore:
        vc.true('there is one', a.usable() > 0)
    a.check(a.r.value)
    # the transformation and the mixture are copied
    mine, a.jac = a.jac, a.jac.copy()
    mine.set_cen(row=100.0, col=50.0)
    a.check(a.r.value)
    vc.cover('end')


ANYOPS = PARTS + ['jacobian', 'jacobian none', 'weight none', 'write image', 'write weight', 'write jacobian', 'write noise',
                  'ignore', 'store', 'gmix', 'psf', 'meta', 'nothing', 'remove', 'fail']


@unit('C12', cases=ANYOPS, samples=50, cost=2)
def change_any(vc, op):
    """any image size and any state: each change is made exactly, keeps the observation consistent and leaves every
    other part alone; when refused nothing changes"""
    import ngmix
    store, ignore = vc.case(vc.bool('store')), vc.case(vc.bool('ignore'))
    a = Any(vc, store_pixels=store, ignore_zero_weight=ignore)
    if not a.r.ok:
        return
    obs = a.r.value
    fn = vc.case(vc.bool('property'))
    nr, nc = a.nr, a.nc

    def put(nm, v):
        if fn:
            setattr(obs, nm, v)
        else:
            getattr(obs, 'set_' + nm)(v)

    def write(nm, v):
        def f():
            with obs.writeable():
                getattr(obs, nm)[k, l] = v
        return f
    usable = True
    old = dict(a.parts), a.store, a.ignore
    if op in PARTS:
        x = any_map(vc, 'new', nr, nc, op == 'weight')
        r = vc.call(put, op, x.copy())
        a.parts[op] = x
    elif op == 'weight none':
        r = vc.call(put, 'weight', None)
        a.parts['weight'] = vc.np.zeros((nr, nc)) + 1.0
    elif op == 'jacobian':
        j = some_jacobian(vc, 'n')
        r = vc.call(put, 'jacobian', j)
        a.jac = j.copy()
        j.set_cen(row=7.0, col=3.0)
    elif op == 'jacobian none':
        r = vc.call(put, 'jacobian', None)
        a.jac = ngmix.UnitJacobian(row=(nr - 1) / 2.0, col=(nc - 1) / 2.0)
    elif op in ('write image', 'write weight', 'write noise'):
        nm = op.split()[1]
        k, l = vc.at('k', nr), vc.at('l', nc)
        y = vc.real('newpix', gen=lambda r: r.choice([0.0, -1.0, r.random()]))
        r = vc.call(write(nm, y))
        a.parts[nm] = a.parts[nm].copy()
        a.parts[nm][k, l] = y
        if not r.ok:
            # a write in place cannot be refused; without usable pixels there is an error
            vc.true('error only without usable pixels', store and ignore and r.name == 'GMixFatalError')
            vc.true('there is none', a.usable() == 0)
            return
    elif op == 'write jacobian':
        y, z = vc.reals('newrow newcol')

        def f():
            with obs.writeable():
                obs.jacobian.set_cen(row=y, col=z)
        r = vc.call(f)
        a.jac = a.jac.copy()
        a.jac.set_cen(row=y, col=z)
    elif op == 'ignore':
        a.ignore = vc.case(vc.bool('to'))
        r = vc.call(setattr, obs, 'ignore_zero_weight', a.ignore)
    elif op == 'store':
        a.store = vc.case(vc.bool('to'))
        r = vc.call(setattr, obs, 'store_pixels', a.store)
    elif op == 'gmix':
        g = gmix1(vc, 'new')
        r = vc.call(put, 'gmix', g)
        a.gm = g.copy()
        g.get_data()['p'] = 5.0
    elif op == 'psf':
        a.pn, a.pm = vc.int('qnr', 1), vc.int('qnc', 1)
        a.pi, a.pj = vc.at('qi', a.pn), vc.at('qj', a.pm)
        a.psfim, a.pgm = any_map(vc, 'newpsf', a.pn, a.pm), None
        r = vc.call(put, 'psf', ngmix.Observation(a.psfim))
    elif op == 'meta':
        a.meta = dict(z=3)
        r = vc.call(put, 'meta', dict(z=3))
    elif op == 'remove':
        def f():
            for nm in MAPS + ['gmix', 'psf']:
                put(nm, None)
        r = vc.call(f)
        a.parts.update((nm, None) for nm in MAPS)
        a.gm = a.psf = None
    elif op == 'fail':
        # after an error inside the context the arrays are read-only again
        k, l = vc.at('k', nr), vc.at('l', nc)
        y = vc.real('newpix')

        def f():
            with obs.writeable():
                obs.image[k, l] = y
                raise KeyError('x')
        r = vc.call(f)
        vc.true('error passed on', not r.ok and r.name == 'KeyError')
        a.parts['image'] = a.parts['image'].copy()
        a.parts['image'][k, l] = y
        a.check(obs)
        vc.cover('end')
        return
    else:
        def f():
            with obs.writeable():
                pass
        r = vc.call(f)
    if not r.ok:
        vc.true('refused only without usable pixels', a.store and a.ignore and op in ('weight', 'ignore', 'store'))
        vc.true('there is none', a.usable() == 0)
        a.parts, a.store, a.ignore = old
        a.check(obs)
        return
    a.check(obs)
    vc.cover('end')


@unit('C12', cases=PARTS, samples=50)
def wrong_shape_any(vc, nm):
    """a map of any other shape is refused and changes nothing"""
    a = Any(vc, ignore_zero_weight=False)
    obs = a.r.value
    n, m = vc.int('newnr', 1), vc.int('newnc', 1)
    same = vc.case(vc.And(n == a.nr, m == a.nc))
    x = any_map(vc, 'new', n, m)
    if vc.case(vc.bool('property')):
        r = vc.call(setattr, obs, nm, x)
    else:
        r = vc.call(getattr(obs, 'set_' + nm), x)
    vc.true('refused exactly for another shape', r.ok == same)
    if not same:
        a.check(obs)
        vc.cover('refused')


@unit('C12', cases=['copy', 'copy.copy', 'copy.deepcopy'], samples=40, cost=2)
def copies_any(vc, how):
    """any image size: a copy equals the original and shares nothing with it"""
    import copy
    store, ignore = vc.case(vc.bool('store')), vc.case(vc.bool('ignore'))
    a = Any(vc, store_pixels=store, ignore_zero_weight=ignore)
    if not a.r.ok:
        return
    obs = a.r.value
    c = {'copy': lambda o: o.copy(), 'copy.copy': copy.copy, 'copy.deepcopy': copy.deepcopy}[how](obs)
    a.check(c)
    vc.true('equal', bool(c == obs) is True)
    vc.true('not unequal', bool(c != obs) is False)
    vc.true('another psf', c.psf is not obs.psf)

    def write():
        with c.writeable():
            for nm in PARTS:
                getattr(c, nm)[a.i, a.j] = 17.0
            c.jacobian.set_cen(row=9.0, col=9.0)
    vc.call(write)
    with c.psf.writeable():
        c.psf.image[a.pi, a.pj] = 11.0
    c.psf.set_gmix(None)
    c.meta['a'] = 7
    c.meta['b'].append(1)
    c.set_gmix(None)
    a.check(obs)
    vc.cover('end')


@unit('C12', cases=PARTS + ['psf'], samples=50)
def equality_any(vc, nm):
    """any image size: equal exactly when that part is equal, in both directions"""
    a = Any(vc, ignore_zero_weight=False)
    obs = a.r.value
    c = obs.copy()
    x = vc.real('x')
    if nm == 'psf':
        k, l = vc.at('k', a.pn), vc.at('l', a.pm)
        if vc.case(vc.bool('keep')):
            x = obs.psf.image[k, l]
        eq = vc.case(obs.psf.image[k, l] == x)
        with c.psf.writeable():
            c.psf.image[k, l] = x
    else:
        k, l = vc.at('k', a.nr), vc.at('l', a.nc)
        if vc.case(vc.bool('keep')):
            x = getattr(obs, nm)[k, l]
        eq = vc.case(getattr(obs, nm)[k, l] == x)
        with c.writeable():
            getattr(c, nm)[k, l] = x
    vc.true('equality', bool(obs == c) == eq)
    vc.true('equality the other way', bool(c == obs) == eq)
    vc.true('inequality', bool(obs != c) == (not eq))
    vc.cover('end')


OPS = ['image', 'weight', 'jacobian', 'jacobian none', 'weight none', 'write image', 'write weight', 'write jacobian',
       'ignore', 'store', 'gmix', 'psf', 'noise', 'bmask', 'meta', 'nothing']


@unit('C12', cases=OPS, samples=60, cost=2, bound='images of 2 pixels')
def change(vc, op):
    """each change is made exactly, keeps the observation consistent and leaves every other part alone; when refused
    nothing changes"""
    import ngmix
    shape = (1, 2)
    ignore = vc.case(vc.bool('ignore0'))
    obs = full_obs(vc, shape, ignore_zero_weight=ignore)
    if vc.case(vc.bool('nopix')):
        obs.store_pixels = False
    before = snap(obs)
    fn = vc.case(vc.bool('property'))

    def put(nm, v):
        if fn:
            setattr(obs, nm, v)
        else:
            getattr(obs, 'set_' + nm)(v)
    changed = []
    if op == 'image':
        x = vc.mat('newim', shape)
        r = vc.call(put, 'image', x)
        changed = ['image']
    elif op == 'weight':
        x = weight_map(vc, 'newwt', shape)
        r = vc.call(put, 'weight', x)
        changed = ['weight']
    elif op == 'weight none':
        x = vc.np.ones(shape)
        r = vc.call(put, 'weight', None)
        changed = ['weight']
    elif op == 'jacobian':
        j = some_jacobian(vc, 'n')
        x = [j.row0, j.col0, j.dvdrow, j.dvdcol, j.dudrow, j.dudcol, j.det, j.scale]
        r = vc.call(put, 'jacobian', j)
        changed = ['jacobian']
    elif op == 'jacobian none':
        x = [0.0, 0.5, 1.0, 0.0, 0.0, 1.0, 1.0, 1.0]
        r = vc.call(put, 'jacobian', None)
        changed = ['jacobian']
    elif op == 'write image':
        y = vc.real('newpix')

        def f():
            with obs.writeable():
                obs.image[0, 1] = y
        r = vc.call(f)
        x = before['image'].copy()
        x[0, 1] = y
        changed = ['image']
    elif op == 'write weight':
        y = vc.real('newpix', gen=lambda r: r.choice([0.0, -1.0, r.random()]))

        def f():
            with obs.writeable():
                obs.weight[0, 1] = y
        r = vc.call(f)
        x = before['weight'].copy()
        x[0, 1] = y
        changed = ['weight']
        # a write in place cannot be refused; without usable pixels there is an error
        if not r.ok:
            vc.true('error only without usable pixels', not vc.case(vc.Or(*[z > 0 for z in x.ravel()])))
            return
    elif op == 'write jacobian':
        y, z = vc.reals('newrow newcol')

        def f():
            with obs.writeable():
                obs.jacobian.set_cen(row=y, col=z)
        r = vc.call(f)
        x = [y, z] + before['jacobian'][2:]
        changed = ['jacobian']
    elif op == 'ignore':
        to = vc.case(vc.bool('to'))

        def f():
            obs.ignore_zero_weight = to
        r = vc.call(f)
        x = (before['flags'][0], to)
        changed = ['flags']
    elif op == 'store':
        to = vc.case(vc.bool('to'))

        def f():
            obs.store_pixels = to
        r = vc.call(f)
        x = (to, before['flags'][1])
        changed = ['flags']
    elif op == 'gmix':
        g = gmix1(vc, 'new')
        x = g.get_full_pars()
        r = vc.call(put, 'gmix', g)
        changed = ['gmix']
        g.set_flux(g.get_flux() * 2 + 1.0) if not vc.symbolic else g.get_data().__setitem__('p', 5.0)
    elif op == 'psf':
        p = ngmix.Observation(vc.mat('newpsf', (1, 3)))
        x = p.image.copy()
        r = vc.call(put, 'psf', p)
        changed = ['psf', 'psf gmix', 'psf object']
    elif op in ('noise', 'bmask'):
        x = vc.mat('newmap', shape)
        r = vc.call(put, op, x)
        changed = [op]
    elif op == 'meta':
        x = dict(z=3)
        r = vc.call(put, 'meta', x)
        changed = ['meta']
    else:
        def f():
            with obs.writeable():
                pass
        r = vc.call(f)
    after = snap(obs)
    if not r.ok:
        usable = True
        if op in ('weight', 'ignore', 'store'):
            w = x if op == 'weight' else before['weight']
            fl = x if op != 'weight' else before['flags']
            usable = vc.case(vc.Or(*[z > 0 for z in w.ravel()])) or not (fl[0] and fl[1])
        vc.true('refused only without usable pixels', not usable)
        same(vc, before, after)
        consistent_obs(vc, obs)
        return
    if changed and changed[0] in ('meta', 'flags'):
        vc.true('changed', after[changed[0]] == x)
    elif changed:
        vc.eq('changed', after[changed[0]], x)
    same(vc, before, after, but=changed)
    consistent_obs(vc, obs)
    if op == 'psf':
        vc.true('psf has no gmix', not obs.has_psf_gmix())
    vc.cover('end')


@unit('C12', samples=40, bound='images of 2 pixels')
def refused_changes(vc):
    """wrong shapes and types are refused and change nothing"""
    import ngmix
    np = vc.np
    obs = full_obs(vc, (1, 2), positive=True)
    before = snap(obs)
    bad = []
    for nm in ['image', 'weight'] + MAPS:
        for a in (np.zeros((2, 1)), np.zeros((2, 2)), np.zeros(2), np.zeros((1, 2, 1))):
            bad.append((nm, a))
    for nm in ('psf', 'gmix', 'jacobian', 'meta'):
        for a in (3, 'x', [1, 2], np.zeros((1, 2))):
            bad.append((nm, a))
    bad.append(('psf', obs.gmix))
    bad.append(('gmix', obs))
    for nm, a in bad:
        for f in (lambda: getattr(obs, 'set_' + nm)(a), lambda: setattr(obs, nm, a)):
            r = vc.call(f)
            vc.true('%s refused' % nm, not r.ok)
            same(vc, before, snap(obs), nm='%s refused, unchanged' % nm)
    r = vc.call(obs.update_meta_data, 3)
    vc.true('meta refused', not r.ok and r.name == 'TypeError')
    r = vc.call(setattr, obs, 'pixels', None)
    vc.true('pixels cannot be set', not r.ok)
    consistent_obs(vc, obs)
    for nm in PARTS:
        def f():
            getattr(obs, nm)[0, 0] = 1
        r = vc.call(f)
        vc.true('%s cannot be written' % nm, not r.ok)

    def f():
        obs.pixels['val'][0] = 1.0
    vc.true('pixels cannot be written', not vc.call(f).ok)

    def f():
        obs.jacobian.set_cen(row=3.0, col=3.0)
    vc.true('transformation cannot be written', not vc.call(f).ok)
    g = obs.gmix
    g.get_data()['p'] = 17.0
    same(vc, before, snap(obs), nm='not written')
    # removing the optional ones
    for nm in MAPS + ['psf', 'gmix']:
        getattr(obs, 'set_' + nm)(None)
        vc.true('%s removed' % nm, not getattr(obs, 'has_' + nm)())
        getattr(obs, 'set_' + nm)(None)
        vc.true('%s still removed' % nm, not getattr(obs, 'has_' + nm)())
    after = snap(obs)
    same(vc, before, after, but=MAPS + ['psf', 'gmix', 'psf gmix', 'psf object'])
    vc.true('nothing left', not any(k in after for k in MAPS + ['psf', 'gmix']))
    # after an error inside the context the arrays are read-only again
    def f():
        with obs.writeable():
            obs.image[0, 0] = 7.0
            raise KeyError('x')
    r = vc.call(f)
    vc.true('error passed on', r.name == 'KeyError')
    vc.eq('written before the error', obs.image[0, 0], 7.0)
    consistent_obs(vc, obs)
    vc.cover('end')


@unit('C12', cases=['copy', 'copy.copy', 'copy.deepcopy'], samples=40, cost=2, bound='images of 2 pixels')
def copies(vc, how):
    """a copy equals the original and shares nothing with it"""
    import copy
    store, ignore = vc.case(vc.bool('store')), vc.case(vc.bool('ignore'))
    obs = full_obs(vc, (1, 2), store_pixels=store, ignore_zero_weight=ignore)
    a = snap(obs)
    c = dict(copy=lambda o: o.copy())
    c = {'copy': lambda o: o.copy(), 'copy.copy': copy.copy, 'copy.deepcopy': copy.deepcopy}[how](obs)
    same(vc, a, snap(c), nm='copy')
    consistent_obs(vc, c)
    vc.true('equal', bool(c == obs) is True)
    vc.true('not unequal', bool(c != obs) is False)
    vc.true('another psf', c.psf is not obs.psf)
    with c.writeable():
        for nm in PARTS:
            x = getattr(c, nm)
            x[0, 0] = x[0, 0] + 1
            if nm == 'weight':
                x[0, 0] = 1.0
        c.jacobian.set_cen(row=9.0, col=9.0)
    with c.psf.writeable():
        c.psf.image[0, 0] = 11.0
    c.psf.set_gmix(None)
    c.meta['a'] = 7
    c.meta['b'].append(1)
    c.set_gmix(None)
    same(vc, a, snap(obs), nm='original')
    consistent_obs(vc, obs)
    vc.cover('end')


@unit('C12', cases=PARTS + ['psf', 'gmix', 'jacobian', 'meta'], samples=40, bound='images of 2 pixels')
def equality_of_parts(vc, which):
    """equal exactly when that part is equal, in both directions; present in one only is unequal"""
    import ngmix
    obs = full_obs(vc, (1, 2), positive=True)
    c = obs.copy()
    x = vc.real('x')
    if which in PARTS:
        with c.writeable():
            m = getattr(c, which)
            if which == 'weight':
                vc.assume(x > 0)
            if which in ('bmask', 'ormask'):
                y = 3 if vc.case(vc.bool('same')) else 4
                eq = y == 3
                m[0, 0] = y
            else:
                eq = vc.case(m[0, 1] == x)
                m[0, 1] = x
    elif which == 'psf':
        eq = vc.case(obs.psf.image[0, 1] == x)
        with c.psf.writeable():
            c.psf.image[0, 1] = x
    elif which == 'gmix':
        g = c.gmix
        eq = vc.case(g.get_data()['p'][0] == x)
        g.get_data()['p'][0] = x
        c.set_gmix(g)
    elif which == 'jacobian':
        eq = vc.case(c.jacobian.col0 == x)
        with c.writeable():
            c.jacobian.set_cen(row=c.jacobian.row0, col=x)
    else:
        eq = vc.case(vc.bool('same'))
        c.meta['a'] = 1 if eq else 2
    vc.true('equality', bool(obs == c) == eq)
    vc.true('equality the other way', bool(c == obs) == eq)
    vc.true('inequality', bool(obs != c) == (not eq))
    if which in MAPS + ['psf', 'gmix']:
        c = obs.copy()
        getattr(c, 'set_' + which)(None)
        vc.true('present in one only', bool(obs == c) is False)
        vc.true('present in the other only', bool(c == obs) is False)
        d = c.copy()
        vc.true('missing in both', bool(c == d) is True)
    if which == 'image':
        a = ngmix.Observation(vc.np.ones((1, 2)))
        b = ngmix.Observation(vc.np.ones((2, 2)))
        vc.true('another shape', bool(a == b) is False)
    r = vc.call(lambda: obs == 3)
    vc.true('compared with something else', not r.ok and r.name == 'ValueError')
    vc.cover('end')


@unit('C12', samples=200, prove=False, bound='run-time only: random sequences of 8 operations')
def sequences(vc):
    """any sequence of operations"""
    import ngmix
    import random
    r = random.Random(vc.int('seed', 0, 10 ** 6))
    import numpy as np
    nr, nc = r.randrange(1, 5), r.randrange(1, 5)

    def W():
        w = np.array([[r.choice([0.0, -1.0, 1.0, r.random()]) for _ in range(nc)] for _ in range(nr)])
        return w

    def A():
        return np.array([[r.gauss(0, 1) for _ in range(nc)] for _ in range(nr)])

    def J():
        return ngmix.Jacobian(row=r.random(), col=r.random(), dvdrow=1 + r.random(), dvdcol=r.random() * 0.3,
                              dudrow=-0.1, dudcol=1.0)
    obs = ngmix.Observation(A(), weight=np.abs(W()) + 0.1)
    for step in range(8):
        b = snap(obs)
        op = r.randrange(10)
        w = None
        if op == 0:
            q = vc.call(obs.set_image, A())
        elif op == 1:
            q = vc.call(obs.set_weight, W())
        elif op == 2:
            q = vc.call(obs.set_jacobian, J())
        elif op == 3:
            q = vc.call(setattr, obs, 'ignore_zero_weight', r.random() < 0.5)
        elif op == 4:
            q = vc.call(setattr, obs, 'store_pixels', r.random() < 0.7)
        elif op == 5:
            obs = obs.copy()
            continue
        elif op == 6:
            def f():
                with obs.writeable():
                    obs.image[0, 0] = 3.0
                    obs.weight[nr - 1, nc - 1] = 2.0
            q = vc.call(f)
        elif op == 7:
            q = vc.call(obs.set_weight, np.ones((nr + 1, nc)))
        elif op == 8:
            q = vc.call(obs.set_psf, r.choice([None, ngmix.Observation(A()), 3]))
        else:
            q = vc.call(obs.set_noise, A())
        if not q.ok:
            same(vc, b, snap(obs), nm='refused')
        consistent_obs(vc, obs)
