"""Retries, PSF runs and bootstrapping."""
from pyvc.unit import unit


class Fitter(object):
    """a fitter whose attempt number k gives results[k]"""

    def __init__(self, vc, results, obs, guesser=None):
        self.vc = vc
        self.results = results
        self.n = vc.np.zeros(1)
        self.n[0] = 0
        self.want = obs
        self.guesser = guesser

    def go(self, obs, guess=None):
        vc = self.vc
        vc.true('the observation that was given', obs is self.want)
        k = self.n[0]
        if self.guesser is None:
            vc.true('no guess', guess is None)
        else:
            vc.true('a fresh guess for each attempt', self.guesser.n[0] == k + 1)
            vc.true('the guess that was just made', guess['id'] == k)
        self.n[0] = k + 1
        return self.results[asint(vc, k)]


class Guesser(object):
    def __init__(self, vc, guesses, obs):
        self.vc = vc
        self.n = vc.np.zeros(1)
        self.n[0] = 0
        self.guesses = guesses
        self.want = obs

    def __call__(self, obs):
        self.vc.true('guess for the observation that was given', obs is self.want)
        k = self.n[0]
        self.n[0] = k + 1
        return self.guesses[asint(self.vc, k)]


def asint(vc, k):
    if not vc.symbolic:
        return int(k)
    from pyvc.sym import Sym, mkint
    return mkint(k.t) if isinstance(k, Sym) else int(k)


def attempts(vc, guess):
    n = vc.int('ntry', 1, gen=lambda r: r.randrange(1, 8))
    res = vc.symarr('res', n, dict(flags=dict(gen=lambda r: float(r.choice([0, 1, 1, 4]))), id={}))
    gs = vc.symarr('guess', n, dict(id={}))
    if vc.symbolic:
        from pyvc import terms as T
        vc.e.array_facts['guess.id'] = lambda k: T.eq(T.fn('guess.id', k), k)
    else:
        gs['id'] = range(n)
    obs = object()
    g = Guesser(vc, gs, obs) if guess else None
    return n, res, obs, g, Fitter(vc, res, obs, g)


@unit('C14', cases=[False, True], samples=100)
def retries(vc, guess):
    """attempts until the first unflagged result or until they are used up, any number of them"""
    from ngmix import runners
    n, res, obs, g, fitter = attempts(vc, guess)
    r = vc.call(runners.run_fitter, obs, fitter, guesser=g, ntry=n)
    vc.true('ran', r.ok)
    c = fitter.n[0]
    vc.true('at least one attempt', c >= 1)
    vc.true('no more attempts than allowed', c <= n)
    if guess:
        vc.true('guesses made', g.n[0] == c)
    last = res[asint(vc, c - 1)]
    vc.eq('the result of the last attempt', r.value['flags'], last['flags'], tol=0)
    vc.eq('the result of the last attempt', r.value['id'], last['id'], tol=0)
    if vc.case(c < n):
        vc.true('stopped by an unflagged result', r.value['flags'] == 0)
    if vc.case(c > 1):
        k = vc.at('k', asint(vc, c - 1))
        vc.true('the earlier attempts were flagged', vc.Not(res[k]['flags'] == 0))
    vc.cover('end')


def named(vc, C, **kw):
    """what a runner object passes on"""
    o = C(**kw)
    for k, v in kw.items():
        vc.true('keeps ' + k, getattr(o, k) is v)
    return o


@unit('C14', cases=[1, 2], samples=60)
def runner_object(vc, m):
    from ngmix import runners
    n, res, obs, g, fitter = attempts(vc, True)
    for k in (g, None)[:m]:
        seen = []

        def f(**kw):
            seen.append(kw)
            return 'result'
        vc.patch(runners, 'run_fitter', f)
        vc.patch(runners, 'run_psf_fitter', f)
        r = runners.Runner(fitter=fitter, guesser=k, ntry=n)
        vc.true('result', r.go(obs=obs) == 'result')
        vc.true('passed on', len(seen) == 1 and seen[0]['obs'] is obs and seen[0]['fitter'] is fitter
                and seen[0]['guesser'] is k and seen[0]['ntry'] is n and set(seen[0]) == {'obs', 'fitter', 'guesser', 'ntry'})
        for sr in (True, False):
            r = runners.PSFRunner(fitter=fitter, guesser=k, ntry=n, set_result=sr)
            vc.true('result', r.go(obs=obs) == 'result')
            vc.true('passed on', seen[-1]['obs'] is obs and seen[-1]['fitter'] is fitter
                    and seen[-1]['guesser'] is k and seen[-1]['ntry'] is n and seen[-1]['set_result'] is sr)
        vc.unpatch()
    vc.cover('end')


class Result(dict):
    """result of a fit; has a mixture"""

    def __init__(self, gmix=None, **k):
        dict.__init__(self, **k)
        self.gm = gmix

    def get_gmix(self):
        return self.gm


class PSFFitter(object):
    """fits that succeed or fail as chosen"""

    def __init__(self, vc, name, gm, kind=0):
        self.vc = vc
        self.calls = []
        self.name = name
        self.gm = gm
        self.kind = kind

    def go(self, obs, guess=None):
        n = len(self.calls)
        fl = self.vc.int('%s%d' % (self.name, n), 0, gen=lambda r: r.choice([0, 0, 1, 8]))
        res = Result(self.gm, flags=fl) if self.kind == 0 else dict(flags=fl)
        self.calls.append((obs, guess, res))
        return res


STRUCT = ['O', 'o', 'L1', 'L2', 'L3', 'M1', 'M11', 'M21', 'M12', 'M22']


def make(vc, s, nopsf=False):
    """observations with a psf ('o': without) in the given structure"""
    import ngmix

    def one():
        im = vc.np.zeros((1, 2))
        psf = None if nopsf or s == 'o' else ngmix.Observation(vc.np.zeros((1, 2)))
        return ngmix.Observation(im, psf=psf)
    if s in 'Oo':
        o = one()
        return o, [[o]]
    if s[0] == 'L':
        lst = ngmix.ObsList(meta=dict(name='list'))
        for i in range(int(s[1])):
            lst.append(one())
        return lst, [list(lst)]
    mb = ngmix.MultiBandObsList(meta=dict(name='bands'))
    for k, c in enumerate(s[1:]):
        lst = ngmix.ObsList(meta=dict(name=k))
        for i in range(int(c)):
            lst.append(one())
        mb.append(lst)
    return mb, [list(x) for x in mb]


def target(o):
    return o.psf if o.has_psf() else o


@unit('C14', cases=[(s, k, f) for s in STRUCT for k in (0, 1) for f in (True, False)], samples=20, cost=2,
      bound='lists of up to three observations and up to two bands')
def psf_runs(vc, case):
    """each psf observation is fitted once with success, the result stored with it, the mixture only on success"""
    import ngmix
    s, kind, set_result = case
    obs, bands = make(vc, s)
    gm = ngmix.GMix(pars=[1.0, 0.0, 0.0, 1.0, 0.0, 1.0])
    fitter = PSFFitter(vc, 'flags', gm, kind)
    guesses = []

    def guesser(obs):
        guesses.append((obs, object()))
        return guesses[-1][1]
    runner = ngmix.runners.PSFRunner(fitter=fitter, guesser=guesser, ntry=1, set_result=set_result)
    r = vc.call(runner.go, obs)
    vc.true('ran', r.ok)
    flat = [o for b in bands for o in b]
    vc.true('one fit each, in order', len(fitter.calls) == len(flat)
            and all(c[0] is target(o) for c, o in zip(fitter.calls, flat)))
    vc.true('guesses for the psf', all(g[0] is target(o) for g, o in zip(guesses, flat)))
    vc.true('the guess is used', all(c[1] is g[1] for c, g in zip(fitter.calls, guesses)))
    it = iter(fitter.calls)
    shape = [[next(it)[2] for o in b] for b in bands]
    got = r.value
    if s in 'Oo':
        vc.true('result', got is shape[0][0])
    elif s[0] == 'L':
        vc.true('results', len(got) == len(shape[0]) and all(a is b for a, b in zip(got, shape[0])))
    else:
        vc.true('results', len(got) == len(shape) and all(
            len(x) == len(y) and all(a is b for a, b in zip(x, y)) for x, y in zip(got, shape)))
    for o, c in zip(flat, fitter.calls):
        t = target(o)
        if not set_result:
            vc.true('nothing stored', 'result' not in t.meta and not t.has_gmix())
            continue
        vc.true('stored with the psf', t.meta['result'] is c[2])
        if o is not t:
            vc.true('not stored with the object', 'result' not in o.meta and not o.has_gmix())
        if vc.case(c[2]['flags'] == 0):
            vc.true('mixture of a success', t.has_gmix() == (kind == 0))
        else:
            vc.true('no mixture of a failure', not t.has_gmix())
    vc.cover('end')


@unit('C14', cases=[(s, h) for s in (True, False) for h in (True, False)], samples=40, bound='three attempts on one observation')
def psf_retry(vc, case):
    """what is stored is the result of the last attempt, also when there was one before"""
    import ngmix
    set_result, had = case
    obs, _ = make(vc, 'O')
    if had:
        obs.psf.gmix = ngmix.GMix(pars=[2.0, 0.0, 0.0, 3.0, 0.0, 3.0])
    gm = ngmix.GMix(pars=[1.0, 0.0, 0.0, 1.0, 0.0, 1.0])
    fitter = PSFFitter(vc, 'flags', gm)
    r = vc.call(ngmix.runners.run_psf_fitter, obs, fitter, ntry=3, set_result=set_result)
    vc.true('ran', r.ok)
    c = fitter.calls
    vc.true('attempts', 1 <= len(c) <= 3 and all(x[0] is obs.psf and x[1] is None for x in c))
    vc.true('last', r.value is c[-1][2])
    vc.true('stored', (obs.psf.meta.get('result') is c[-1][2]) if set_result else ('result' not in obs.psf.meta))
    for x in c[:-1]:
        vc.true('failed before', vc.Not(x[2]['flags'] == 0))
    if len(c) < 3:
        vc.true('success', c[-1][2]['flags'] == 0)
    ok = vc.case(c[-1][2]['flags'] == 0)
    vc.true('mixture', obs.psf.has_gmix() == ((ok and set_result) or had))
    if obs.psf.has_gmix():
        vc.eq('the mixture of the result', list(obs.psf.gmix.get_full_pars()),
              [1.0, 0.0, 0.0, 1.0, 0.0, 1.0] if ok and set_result else [2.0, 0.0, 0.0, 3.0, 0.0, 3.0], tol=0)
    vc.cover('end')


@unit('C14', cases=['str', 'list', 'None'], samples=3)
def psf_wrong_type(vc, s):
    import ngmix
    x = {'str': 'obs', 'list': [make(vc, 'O')[0]], 'None': None}[s]
    f = PSFFitter(vc, 'flags', None)
    r = vc.call(ngmix.runners.run_psf_fitter, x, f)
    vc.true('refused', not r.ok and r.name == 'ValueError' and not f.calls)
    r = vc.call(ngmix.bootstrap.remove_failed_psf_obs, x)
    vc.true('refused', not r.ok and r.name == 'ValueError')
    vc.cover('end')


def flagged(vc, bands):
    out = []
    for b in bands:
        out.append([])
        for o in b:
            fl = vc.int('f%d_%d' % (len(out), len(out[-1])), 0, gen=lambda r: r.choice([0, 0, 1, 8]))
            o.psf.meta['result'] = dict(flags=fl)
            out[-1].append(fl)
    return out


@unit('C14', cases=['O', 'L0', 'L1', 'L2', 'L3', 'M1', 'M11', 'M21', 'M12', 'M22', 'M13', 'M111'], samples=30,
      bound='lists of up to three observations and up to three bands')
def removal(vc, s):
    """the observations that are left are those whose psf fit succeeded, in order; nothing left is an error"""
    import ngmix
    obs, bands = make(vc, s)
    fl = flagged(vc, bands)
    r = vc.call(ngmix.bootstrap.remove_failed_psf_obs, obs)
    good = [[o for o, f in zip(b, x) if vc.case(f == 0)] for b, x in zip(bands, fl)]
    if any(not b for b in good):
        vc.true('nothing left is an error', not r.ok and r.name == 'BootPSFFailure')
    else:
        vc.true('returned', r.ok)
        x = r.value
        vc.true('type', type(x) is type(obs))
        if s == 'O':
            vc.true('the observation', x is obs)
        elif s[0] == 'L':
            vc.true('what is left, in order', len(x) == len(good[0]) and all(a is b for a, b in zip(list(x), good[0])))
            vc.true('metadata', x.meta == dict(name='list'))
        else:
            vc.true('bands', len(x) == len(good))
            vc.true('metadata', x.meta == dict(name='bands'))
            for k, (lst, g) in enumerate(zip(list(x), good)):
                vc.true('what is left, in order', type(lst) is ngmix.ObsList and len(lst) == len(g)
                        and all(a is b for a, b in zip(list(lst), g)))
                vc.true('metadata', lst.meta == dict(name=k))
    if s[0] == 'L':
        vc.true('input unchanged', len(obs) == len(bands[0]) and all(a is b for a, b in zip(list(obs), bands[0])))
    if s[0] == 'M':
        vc.true('input unchanged', len(obs) == len(bands) and all(
            len(x) == len(y) and all(a is b for a, b in zip(list(x), y)) for x, y in zip(list(obs), bands)))
    vc.cover('end')


class Obj(object):
    """runner of the object"""

    def __init__(self):
        self.calls = []
        self.fitter = object()

    def go(self, obs):
        self.calls.append(obs)
        return ('result', len(self.calls))


@unit('C14', cases=[(s, i, c) for s in ('O', 'L1', 'L2', 'M11', 'M21') for i in (True, False, None) for c in (0, 1)], samples=20,
      bound='lists of up to two observations and up to two bands')
def boot(vc, case):
    """psfs first, then the object once on what is left"""
    import ngmix
    s, ignore, useclass = case
    obs, bands = make(vc, s)
    fitter = PSFFitter(vc, 'flags', ngmix.GMix(pars=[1.0, 0.0, 0.0, 1.0, 0.0, 1.0]))
    psf_runner = ngmix.runners.PSFRunner(fitter=fitter)
    runner = Obj()
    # not given: failed psfs are dropped, as documented
    kw = {} if ignore is None else dict(ignore_failed_psf=ignore)
    ignore = kw.get('ignore_failed_psf', True)
    if useclass:
        b = ngmix.bootstrap.Bootstrapper(runner=runner, psf_runner=psf_runner, **kw)
        vc.true('fitter', b.fitter is runner.fitter)
        r = vc.call(b.go, obs)
    else:
        r = vc.call(ngmix.bootstrap.bootstrap, obs, runner, psf_runner=psf_runner, **kw)
    flat = [o for b in bands for o in b]
    vc.true('each psf fitted', len(fitter.calls) == len(flat) and all(c[0] is o.psf for c, o in zip(fitter.calls, flat)))
    if not ignore:
        vc.true('object fitted on all', r.ok and r.value == ('result', 1) and len(runner.calls) == 1 and runner.calls[0] is obs)
    else:
        it = iter(fitter.calls)
        good = [[o for o in b if vc.case(next(it)[2]['flags'] == 0)] for b in bands]
        if any(not b for b in good):
            vc.true('no psf: an error', not r.ok and r.name == 'BootPSFFailure' and not runner.calls)
        else:
            vc.true('object fitted once', r.ok and r.value == ('result', 1) and len(runner.calls) == 1)
            x = runner.calls[0]
            got = [[x]] if s == 'O' else ([list(x)] if s[0] == 'L' else [list(y) for y in x])
            vc.true('on what is left', len(got) == len(good) and all(
                len(p) == len(q) and all(a is b for a, b in zip(p, q)) for p, q in zip(got, good)))
            for p in got:
                for o in p:
                    vc.true('with its mixture', o.psf.has_gmix())
    # no psf runner: straight to the object
    runner = Obj()
    r = vc.call(ngmix.bootstrap.Bootstrapper(runner=runner, **kw).go, obs)
    vc.true('no psf run', r.ok and r.value == ('result', 1) and len(runner.calls) == 1 and runner.calls[0] is obs)
    vc.cover('end')


@unit('C14', samples=10)
def errors_pass(vc):
    """an error raised by a fit is not hidden"""
    import ngmix
    obs, _ = make(vc, 'O')

    class Boom(object):
        def go(self, obs, guess=None):
            raise ngmix.GMixRangeError('no')
    for f in (lambda: ngmix.runners.run_fitter(obs, Boom(), ntry=3),
              lambda: ngmix.runners.run_psf_fitter(obs, Boom()),
              lambda: ngmix.bootstrap.bootstrap(obs, Obj(), psf_runner=Boom())):
        r = vc.call(f)
        vc.true('raised', not r.ok and r.name == 'GMixRangeError')
    vc.cover('end')
