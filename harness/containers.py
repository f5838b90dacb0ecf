"""Containers of observations."""
from pyvc.unit import unit
from harness.obsdata import some_obs, full_obs, some_jacobian


class Stub(object):
    """an element with arbitrary sums"""

    def __init__(self, sums):
        self.sums = sums

    def get_s2n_sums(self):
        return self.sums


def elements(vc, kind):
    """four distinct elements of the right kind and things of other kinds"""
    import ngmix
    from ngmix.observation import KObsList, KMultiBandObsList, KObservation
    ims = vc.np.zeros((1, 2))
    obs = [ngmix.Observation(vc.mat('im%d' % i, (1, 2))) for i in range(4)]
    wrong = [None, 3, 'x', ims, [obs[0]], (obs[0],), obs[0].jacobian]
    if kind.startswith('K'):
        obs = [vc.bare(KObservation) for i in range(4)]
        L, M = KObsList, KMultiBandObsList
    else:
        L, M = ngmix.ObsList, ngmix.MultiBandObsList
    lists = []
    for i in range(4):
        lst = L()
        lst.append(obs[i])
        lists.append(lst)
    mb = M()
    mb.append(lists[0])
    if kind.endswith('M'):
        return M, lists, wrong + [obs[1], mb, (KObsList if L is ngmix.ObsList else ngmix.ObsList)()]
    return L, obs, wrong + [lists[1], mb, vc.bare(KObservation) if L is ngmix.ObsList
                            else ngmix.Observation(ims)]


def holds(vc, lst, want, nm='elements'):
    vc.true(nm, len(lst) == len(want) and all(a is b for a, b in zip(list(lst), want)))


@unit('C13', cases=['O', 'M', 'KO', 'KM'], samples=6)
def type_safety(vc, kind):
    """append and item assignment take elements of the right kind only; a refused operation changes nothing"""
    C, good, bad = elements(vc, kind)
    lst = C(meta=dict(a=1))
    want = []
    for step in range(4):
        for b in bad:
            r = vc.call(lst.append, b)
            vc.true('refused', not r.ok and r.name == 'AssertionError')
            holds(vc, lst, want)
            for i in range(-step, step):
                r = vc.call(lst.__setitem__, i, b)
                vc.true('refused', not r.ok and r.name == 'AssertionError')
                holds(vc, lst, want)
        lst.append(good[step])
        want.append(good[step])
        holds(vc, lst, want)
        vc.true('meta', lst.meta == dict(a=1))
    for i in range(-4, 4):
        lst[i] = good[1]
        want[i] = good[1]
        holds(vc, lst, want)
    for i in (4, -5):
        r = vc.call(lst.__setitem__, i, good[0])
        vc.true('outside the list', not r.ok and r.name == 'IndexError')
        holds(vc, lst, want)
    # slices never put elements of another kind in the list
    for sl in (slice(0, 1), slice(None), slice(1, 3), slice(0, 4, 2)):
        for x in bad + good:
            c = C()
            for g in good:
                c.append(g)
            vc.call(c.__setitem__, sl, x)
            vc.true('only the right kind', all(type(e) is type(good[0]) for e in list(c)))
    vc.cover('end')


@unit('C13', cases=['O', 'M', 'KO', 'KM'], samples=6)
def list_meta(vc, kind):
    C, good, bad = elements(vc, kind)
    a, b = C(), C()
    vc.true('no metadata', a.meta == {} and b.meta == {})
    a.meta['x'] = 1
    vc.true('not shared', b.meta == {} and C().meta == {})
    for x in (3, 'x', [1]):
        vc.true('refused', vc.call(a.set_meta, x).name == 'TypeError')
        vc.true('refused', vc.call(a.update_meta_data, x).name == 'TypeError')
        vc.true('refused', vc.call(C, meta=x).name == 'TypeError')
        vc.true('unchanged', a.meta == {'x': 1})
    a.update_meta_data({'y': 2})
    vc.true('updated', a.meta == {'x': 1, 'y': 2})
    a.meta = {'z': 3}
    vc.true('replaced', a.meta == {'z': 3})
    a.set_meta(None)
    vc.true('removed', a.meta == {})
    vc.cover('end')


def stub_sums(vc, nm):
    return (vc.real(nm + 'I'), vc.real(nm + 'V', gen=lambda r: r.choice([0.0, r.random(), r.random()])), vc.int(nm + 'N', 0))


@unit('C13', cases=['ObsList', 'MultiBandObsList'], samples=40)
def sums_add(vc, name):
    """the sums of a list are the sums over its elements, for any number of elements"""
    import ngmix
    C = getattr(ngmix, name)
    n = vc.int('n', 1, gen=lambda r: r.randrange(0, 6))
    s = vc.symarr('s', n, dict(I={}, V=dict(pos=True), N=dict(pos=True)))
    seq = vc.seq(n, lambda k: Stub((s['I'][k], s['V'][k], s['N'][k])))
    if vc.symbolic:
        lst = seq
    else:
        lst = C()
        for x in seq:
            list.append(lst, x)
    I, V, N = C.get_s2n_sums(lst)
    vc.eq('I', I, vc.sum(n, lambda k: s['I'][k]), scale=1)
    vc.eq('V', V, vc.sum(n, lambda k: s['V'][k]))
    vc.eq('N', N, vc.sum(n, lambda k: s['N'][k]))
    vc.cover('end')


@unit('C13', cases=['Observation', 'ObsList', 'MultiBandObsList'], samples=40)
def s2n(vc, name):
    """the signal to noise is that of the sums"""
    import ngmix
    C = getattr(ngmix, name)
    I, V, N = stub_sums(vc, 'a')
    o = vc.bare(C)
    saved = C.get_s2n_sums
    vc.patch(C, 'get_s2n_sums', lambda self: (I, V, N))
    x = o.get_s2n()
    vc.unpatch()
    if vc.case(V > 0):
        vc.eq('s2n', x * vc.np.sqrt(V), I)
    else:
        vc.eq('not defined', x, -9999.0)
    vc.cover('end')


@unit('C13', cases=[(1, 1), (2, 2), (1, 3)], samples=40, bound='images of up to 4 pixels')
def observation_sums(vc, shape):
    obs = some_obs(vc, shape, store_pixels=False)
    I, V, N = obs.get_s2n_sums()
    wI = wV = 0.0
    wN = 0
    for i in range(shape[0]):
        for j in range(shape[1]):
            w = obs.weight[i, j]
            if vc.case(w > 0):
                wI = wI + obs.image[i, j]
                wV = wV + 1 / w
                wN += 1
    vc.eq('I', I, wI, scale=1)
    vc.eq('V', V, wV)
    vc.true('N', N == wN)
    vc.cover('end')


@unit('C13', samples=60)
def observation_sums_any(vc):
    """an image of any size"""
    import ngmix
    from harness.obsdata import any_size, count_usable
    nr, nc, im, w = any_size(vc)
    obs = ngmix.Observation(im.copy(), weight=w.copy(), store_pixels=False)
    I, V, N = obs.get_s2n_sums()
    n = count_usable(vc, nr, nc, w)
    if not vc.symbolic or vc.case(n > 0):
        pos = lambda a, b: w[a, b] > 0
        vc.eq('I', I, vc.sum(nr, lambda a: vc.sum(nc, lambda b: vc.when(pos(a, b), lambda: im[a, b]))), scale=1)
        vc.eq('V', V, vc.sum(nr, lambda a: vc.sum(nc, lambda b: vc.when(pos(a, b), lambda: 1 / w[a, b]))))
        vc.true('N', N == n)
    else:
        vc.eq('nothing', [I, V, N], [0, 0, 0])
        vc.true('no usable pixel', n <= 0)
    vc.eq('untouched', obs.image[vc.at('i', nr), vc.at('j', nc)], im[vc.at('i', nr), vc.at('j', nc)])
    vc.cover('end')


@unit('C13', samples=20, bound='images of 2 pixels')
def no_usable_pixels(vc):
    import ngmix
    w = vc.np.zeros((1, 2))
    w[0, 1] = -1.0
    obs = ngmix.Observation(vc.mat('im', (1, 2)), weight=w, store_pixels=False)
    vc.true('nothing', obs.get_s2n_sums() == (0.0, 0.0, 0))
    vc.eq('s2n', obs.get_s2n(), -9999.0)
    vc.cover('end')


@unit('C13', samples=20, bound='lists of up to 3 elements')
def wrapping(vc):
    """get_mb_obs keeps the objects, their order and their metadata"""
    import ngmix
    from ngmix.observation import get_mb_obs, get_kmb_obs
    for kind, f in (('', get_mb_obs), ('K', get_kmb_obs)):
        M, lists, _ = elements(vc, kind + 'M')
        L, obs, _ = elements(vc, kind + 'O')
        if kind == '':
            obs[0].meta = dict(o=1)
        mb = f(obs[0])
        vc.true('one band of one', type(mb) is M and type(mb[0]) is L)
        holds(vc, mb[0], [obs[0]])
        vc.true('one band', len(mb) == 1)
        if kind == '':
            vc.true('metadata', obs[0].meta == dict(o=1))
        for n in range(4):
            lst = L(meta=dict(l=n))
            for i in range(n):
                lst.append(obs[i])
            mb = f(lst)
            vc.true('kind', type(mb) is M)
            holds(vc, mb, [lst])
            holds(vc, mb[0], obs[:n])
            vc.true('metadata', mb[0].meta == dict(l=n))
        for n in range(4):
            m = M(meta=dict(m=n))
            for i in range(n):
                m.append(lists[i])
            mb = f(m)
            vc.true('kind', type(mb) is M)
            holds(vc, mb, lists[:n])
            vc.true('metadata', mb.meta == dict(m=n))
        for bad in (None, 3, [obs[0]], (obs[0],), 'x', vc.np.zeros((1, 2))):
            r = vc.call(f, bad)
            vc.true('refused', not r.ok and r.name == 'ValueError')
    vc.cover('end')


def some_list(vc, n, tag, **k):
    import ngmix
    lst = ngmix.ObsList(meta=dict(tag=tag, inner=[1]))
    for i in range(n):
        lst.append(some_obs(vc, (1, 2), tag='%s%d' % (tag, i), positive=True, meta=dict(i=i, q=[i]), **k))
    return lst


@unit('C13', cases=['list', 'mb'], samples=20, bound='two bands of up to two epochs of 2 pixels')
def copies(vc, kind):
    """copies are equal and share nothing; equality is that of the elements in order"""
    import copy
    import ngmix
    jac = ngmix.UnitJacobian(row=0.0, col=0.5)
    a = some_list(vc, 2, 'a', jac=jac)
    if kind == 'mb':
        m = ngmix.MultiBandObsList(meta=dict(tag='mb', inner=[1]))
        m.append(a)
        m.append(some_list(vc, 1, 'b', jac=jac))
        a = m
    for f in (lambda x: x.copy(), copy.copy, copy.deepcopy):
        b = f(a)
        vc.true('kind', type(b) is type(a))
        vc.true('equal', bool(a == b) and not bool(a != b))
        vc.true('meta', b.meta == a.meta)
        b.meta['inner'].append(2)
        vc.true('meta not shared', a.meta['inner'] == [1])
        la, lb = (a, b) if kind == 'list' else (a[0], b[0])
        vc.true('length', len(la) == len(lb) == 2 and len(a) == len(b))
        vc.true('kind', type(lb) is ngmix.ObsList)
        for x, y in zip(list(la), list(lb)):
            vc.true('another object', x is not y)
            vc.true('metadata', x.meta == y.meta)
            y.meta['q'].append(5)
            vc.true('metadata not shared', len(x.meta['q']) == 1)
            keep = x.image.copy()
            with y.writeable():
                y.image[0, 0] = y.image[0, 0] + 1
            vc.eq('image not shared', x.image, keep)
        vc.true('not equal any more', not bool(a == b))
        b.append(b[0])
        vc.true('length not shared', len(a) == 2)
        vc.true('not equal', not bool(a == b) and not bool(b == a))
        r = vc.call(lambda: a == 3)
        vc.true('other kinds', r.name == 'ValueError')
    vc.cover('end')


@unit('C13', samples=4, prove=False, bound='run-time only: galsim images')
def k_observation(vc):
    """psf of a k space observation: refused psfs change nothing"""
    import galsim
    import numpy as np
    from ngmix.observation import KObservation

    def ki(n, scale=0.5, dt=complex):
        return galsim.Image(np.ones((n, n), dtype=dt) * (1 + vc.real('x')), scale=scale)
    psf = KObservation(ki(5))
    k = KObservation(ki(5), psf=psf)
    for bad in (3, 'x', KObservation(ki(7)), KObservation(ki(5, scale=0.7)), ki(5)):
        vc.true('refused', not vc.call(k.set_psf, bad).ok)
        vc.true('unchanged', k.has_psf() and k.psf is psf)
    k.set_psf(None)
    vc.true('removed', not k.has_psf())
    for bad in (3, None, np.ones((2, 2)), ki(5, dt=float)):
        vc.true('refused', not vc.call(KObservation, bad).ok)
    vc.true('weight', (k.weight.array == 1).all() and k.weight.array.shape == (5, 5))
    vc.true('weight refused', not vc.call(KObservation, ki(5), weight=ki(7, dt=float)).ok)
    vc.eq('centre', k.jacobian.get_cen(), [2.0, 2.0])
    vc.eq('centre', KObservation(ki(4)).jacobian.get_cen(), [2.0, 2.0])
    vc.eq('scale', k.jacobian.scale, 0.5)
