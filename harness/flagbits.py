"""Flag values and their descriptions."""
from pyvc.unit import unit


class Bits(object):
    """an unsigned integer given by its bits"""

    def __init__(self, vc, bits, width=32):
        self.vc = vc
        self.bits = dict(bits)

    def __lt__(self, n):
        assert n == 0
        return False

    def __ge__(self, n):
        assert n == 0
        return True

    def __and__(self, n):
        n = int(n)
        for k in range(32):
            if n == 1 << k:
                return Bit(self.vc, self.bits[k])
        raise TypeError("'Sym'")

    __rand__ = __and__

    def __rshift__(self, k):
        return Bits(self.vc, {i - k: b for i, b in self.bits.items()})


class Bit(object):
    def __init__(self, vc, b):
        self.vc = vc
        self.b = b

    def __ne__(self, o):
        assert o == 0
        return self.b

    def __eq__(self, o):
        return not self.b

    def __bool__(self):
        return bool(self.b)

    def __gt__(self, o):
        assert o == 0
        return self.b

    __hash__ = None


def flags():
    import ngmix.flags as m
    return m


def constants(M):
    return {k: getattr(M, k) for k in dir(M) if k.isupper() and isinstance(getattr(M, k), int)}


ALIAS = {'EM_RANGE_ERROR': 'GMIX_RANGE_ERROR', 'EM_MAXITER': 'MAXITER', 'BAD_VAR': 'NONPOS_VAR'}


@unit('C28', samples=2)
def distinct(vc):
    """each flag has one bit of its own, and a description of its own"""
    M = flags()
    c = constants(M)
    vc.true('flags', len(c) >= 16 + len(ALIAS))
    seen = {}
    for k, v in c.items():
        if k in ALIAS:
            vc.true('alias', v == c[ALIAS[k]])
            continue
        vc.true('one bit', v > 0 and v & (v - 1) == 0 and v < 2 ** 31)
        vc.true('bit of its own', v not in seen)
        seen[v] = k
        vc.true('described', v in M.NAME_MAP and isinstance(M.NAME_MAP[v], str) and M.NAME_MAP[v] != '')
    vc.true('only flags are described', set(M.NAME_MAP) == set(seen))
    vc.true('description of its own', len(set(M.NAME_MAP.values())) == len(M.NAME_MAP))
    for n in M.NAME_MAP.values():
        vc.true('readable', '|' not in n)
    vc.cover('end')


def want(M, bits, names=None):
    names = M.NAME_MAP if names is None else names
    return '|'.join(names.get(2 ** k, 'bit 2**%d' % k) for k in range(32) if bits[k])


@unit('C28', cases=[(a, rest) for a in range(0, 32, 8) for rest in (0, 1)], cost=2, nsamples=2, samples=60, budget=120,
      bound='eight bits at a time arbitrary, the others all clear or all set')
def description(vc, case):
    """the names of the bits that are set, in order"""
    lo, rest = case
    M = flags()
    bits = {k: bool(rest) for k in range(32)}
    for k in range(lo, lo + 8):
        bits[k] = vc.case(vc.bool('b%d' % k))
    if vc.symbolic:
        saved = M.np.array
        val = Bits(vc, bits)

        class NP(object):
            def __getattr__(self, n):
                return getattr(saved_np, n)

            def array(self, x, dtype=None, **k):
                return x if isinstance(x, Bits) else saved_np.array(x, dtype=dtype, **k)
            asarray = array

            def uint32(self, x):
                return x if isinstance(x, Bits) else saved_np.uint32(x)
        saved_np = M.np
        vc.patch(M, 'np', NP())
    else:
        val = sum(1 << k for k in range(32) if bits[k])
    vc.true('described', M.get_flags_str(val) == want(M, bits))
    mine = {1 << k: 'name %d' % k for k in range(0, 32, 3)}
    vc.true('other names', M.get_flags_str(val, name_map=mine) == want(M, bits, mine))
    vc.cover('end')


@unit('C28', samples=400, prove=False)
def any_value(vc):
    """any 32 bit value in any integer type that holds it"""
    import numpy as np
    M = flags()
    half = lambda r: r.choice([r.getrandbits(16), 1 << r.randrange(16), 0, 0, 65535])
    val = vc.int('low', 0, 65535, gen=half) + 65536 * vc.int('high', 0, 65535, gen=half)
    bits = [bool((val >> k) & 1) for k in range(32)]
    for t in (int, np.uint32, np.int64, np.uint64) + ((np.int32,) if val < 2 ** 31 else ()) + ((np.int16,) if val < 2 ** 15 else ()):
        vc.true('described', M.get_flags_str(t(val)) == want(M, bits))
    vc.cover('end')


@unit('C28', samples=100)
def negative(vc):
    """a negative value is refused"""
    M = flags()
    v = vc.int('v', None, -1, gen=lambda r: -1 - r.randrange(1 << 20))
    r = vc.call(M.get_flags_str, v)
    vc.true('refused', not r.ok and r.name == 'ValueError')
    vc.cover('end')
