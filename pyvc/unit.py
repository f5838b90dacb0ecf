"""Registry of verification units (a harness function, per case)."""

UNITS = []


class Unit(object):
    def __init__(self, prop, name, fn, case, opts):
        self.prop = prop
        self.name = name
        self.fn = fn
        self.case = case
        self.opts = opts

    @property
    def id(self):
        return self.name if self.case is None else '%s[%s]' % (self.name, self.case)

    def run(self, vc):
        if self.case is None:
            self.fn(vc)
        else:
            self.fn(vc, self.case)


def unit(prop, cases=None, thorough=None, **opts):
    """register a harness.  opts:
       bound    text describing a bound (shape, number of components ...) under
                which the unit's proof holds; None = unbounded
       prove    False: run-time contract checking only (bounded stand-in)
       real     False: not run on the real code (ghost lemma)
       samples  number of random run-time evaluations (quick)
       patch    list of call-site contracts in force
    """
    def dec(fn):
        fn.thorough = thorough
        props = prop if isinstance(prop, (list, tuple)) else [prop]
        for p in props:
            for c in (cases if cases is not None else [None]):
                o = dict(opts)
                o['tier'] = 'quick'
                UNITS.append(Unit(p, fn.__name__, fn, c, o))
            for c in (thorough or ()):
                if cases is None or c not in cases:
                    o = dict(opts)
                    o['tier'] = 'thorough'
                    UNITS.append(Unit(p, fn.__name__, fn, c, o))
        return fn
    return dec


def units_for(prop, tier):
    return [u for u in UNITS if u.prop == prop and (tier == 'thorough' or u.opts['tier'] == 'quick')]
