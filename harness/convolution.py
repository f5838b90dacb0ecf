"""Convolution of mixtures."""
from pyvc.unit import unit
from harness.gmix_eval import sym_gmix, nb
from harness.gmix_models import wrap

CORE = ['p', 'row', 'col', 'irr', 'irc', 'icc']


def mixture(vc, tag, n):
    """any n components"""
    import ngmix
    p = []
    for i in range(n):
        t = tag + str(i)
        p += [vc.real('p' + t, gen=lambda r: r.uniform(0.2, 2)), vc.real('r' + t), vc.real('c' + t),
              vc.real('irr' + t, pos=True), vc.real('irc' + t, gen=lambda r: r.uniform(-.2, .2)), vc.real('icc' + t, pos=True)]
    return ngmix.GMix(pars=p)


def comps(gm):
    d = gm.get_data()
    return {f: [d[f][i] for i in range(d.size)] for f in CORE + ['det']}


def same(vc, a, b, nm):
    for f in a:
        vc.eq('%s: %s' % (nm, f), a[f], b[f])


@unit('C08', cases=[(1, 1), (1, 3), (3, 1), (2, 2), (3, 2)], thorough=[(2, 3), (3, 3), (6, 3)], samples=60,
      bound='up to 6 pairs of components (18 in the thorough tier)')
def pairs(vc, case):
    """one component per pair, in order, with its own moments; totals; inputs untouched"""
    import ngmix
    n, m = case
    a, b = mixture(vc, 'a', n), mixture(vc, 'b', m)
    P = b.get_flux()
    vc.assume(P * P > 1e-2)
    if vc.case(vc.bool('normalised')):
        vc.assume(vc.call(a.set_norms).ok)
    a0, b0 = comps(a), comps(b)
    r = vc.call(a.convolve, b)
    vc.true('convolved', r.ok)
    c = r.value
    vc.true('a new mixture', type(c) is ngmix.GMix and c is not a and c is not b)
    vc.true('one component per pair', len(c) == n * m and c.get_data().size == n * m)
    same(vc, a0, comps(a), 'object unchanged')
    same(vc, b0, comps(b), 'kernel unchanged')
    x = comps(c)
    rc = sum(p * q for p, q in zip(b0['p'], b0['row'])) / P
    cc = sum(p * q for p, q in zip(b0['p'], b0['col'])) / P
    for i in range(n):
        for j in range(m):
            k = i * m + j
            vc.eq('flux', x['p'][k] * P, a0['p'][i] * b0['p'][j], scale=1)
            vc.eq('row', x['row'][k], a0['row'][i] + b0['row'][j] - rc, scale=10)
            vc.eq('col', x['col'][k], a0['col'][i] + b0['col'][j] - cc, scale=10)
            for f in ('irr', 'irc', 'icc'):
                vc.eq(f, x[f][k], a0[f][i] + b0[f][j], scale=1)
            vc.eq('determinant', x['det'][k], x['irr'][k] * x['icc'][k] - x['irc'][k] * x['irc'][k], scale=1)
            vc.true('not normalised', c.get_data()['norm_set'][k] == 0)
    vc.eq('total flux', c.get_flux(), a.get_flux(), scale=1)
    F = a.get_flux()
    vc.assume(F * F > 1e-2)
    vc.eq('centre', c.get_cen(), a.get_cen(), scale=10)
    c2 = a.convolve(b)
    same(vc, x, comps(c2), 'again')
    vc.cover('end')


@unit('C08', cases=[(1, 1), (2, 1), (1, 2), (2, 2)], samples=60, bound='up to 4 pairs of components')
def sizes(vc, case):
    """sizes add: the T of the whole is the T of the object plus the T of the kernel"""
    n, m = case
    a, b = mixture(vc, 'a', n), mixture(vc, 'b', m)
    P, F = b.get_flux(), a.get_flux()
    vc.assume(P * P > 1e-2)
    vc.assume(F * F > 1e-2)
    if vc.symbolic and n * m > 1:
        # lemma: with centres at zero (translation is decided by pairs)
        pass
    c = a.convolve(b)
    vc.eq('T', c.get_T(), a.get_T() + b.get_T(), scale=100)
    vc.cover('end')


@unit('C08', samples=60)
def kernel(vc):
    """the convolution kernel, any number of components on both sides"""
    M = nb()
    n = vc.int('n', 1, gen=lambda r: r.randrange(1, 7))
    m = vc.int('m', 1, gen=lambda r: r.randrange(1, 7))
    a = sym_gmix(vc, 'a', n)
    b = sym_gmix(vc, 'b', m)
    c = sym_gmix(vc, 'c', n * m)
    P = vc.sum(m, lambda k: b['p'][k])
    vc.assume(P * P > 1e-2)
    rc = vc.sum(m, lambda k: b['p'][k] * b['row'][k])
    cc = vc.sum(m, lambda k: b['p'][k] * b['col'][k])
    a0, b0 = a.copy(), b.copy()
    r = vc.call(M.gmix_convolve_fill, c, a, b)
    vc.true('filled', r.ok)
    j = vc.at('j', n)
    k = vc.at('k', m)
    o = j * m + k
    vc.eq('flux', c['p'][o] * P, a['p'][j] * b['p'][k], scale=1)
    vc.eq('row', (c['row'][o] - a['row'][j] - b['row'][k]) * P, -rc, scale=10)
    vc.eq('col', (c['col'][o] - a['col'][j] - b['col'][k]) * P, -cc, scale=10)
    for f in ('irr', 'irc', 'icc'):
        vc.eq(f, c[f][o], a[f][j] + b[f][k], scale=1)
    vc.eq('determinant', c['det'][o], c['irr'][o] * c['icc'][o] - c['irc'][o] * c['irc'][o], scale=1)
    vc.true('not normalised', c['norm_set'][o] == 0)
    for f in CORE + ['det']:
        vc.eq('object unchanged', a[f][j], a0[f][j])
        vc.eq('kernel unchanged', b[f][k], b0[f][k])
    vc.cover('end')


@unit('C08', samples=10)
def wrong_type(vc):
    import ngmix
    a = mixture(vc, 'a', 1)
    for bad in (None, 3, 'x', [1.0] * 6, vc.np.zeros(6), a.get_data()):
        r = vc.call(a.convolve, bad)
        vc.true('refused', not r.ok and r.name == 'TypeError')
    vc.cover('end')
