"""Proof process: loads the instrumented ngmix and proves the units of one
property; prints a JSON document.

usage: prove.py PROPERTY TIER SEED OUT
"""
import importlib
import json
import os
import sys
import time
import signal

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))
sys.setrecursionlimit(20000)


def load(prop):
    from pyvc import loader
    loader.install()
    load_harness(prop)


def load_harness(prop):
    hd = os.path.join(os.path.dirname(HERE), 'harness')
    idx = json.load(open(os.path.join(hd, 'index.json')))
    mods = idx[prop]
    for m in mods:
        importlib.import_module('harness.' + m)


def work(args):
    i, opts = args
    from pyvc import vcsym, unit
    u = opts['units'][i]
    un = UN[u]
    lim = opts.get('unit_limit', 300)

    class Alarm(BaseException):
        pass

    def onalarm(*a):
        raise Alarm()
    signal.signal(signal.SIGALRM, onalarm)
    signal.alarm(int(lim))
    if os.environ.get('PYVC_DUMP'):     # debugging: where is a slow unit
        import faulthandler
        faulthandler.dump_traceback_later(int(os.environ['PYVC_DUMP']), repeat=True,
                                          file=open('/tmp/pyvc_dump.%d' % os.getpid(), 'a'))
    try:
        r = vcsym.run_unit(un, opts)
    except Alarm:
        r = dict(unit=un.id, error='budget: unit time limit', paths=0, branches=0, obligations=[], covers={},
                 functions=[], loops=0, loop_obls=0, wall=lim, stats={}, havocked=False)
    finally:
        signal.alarm(0)
        if os.environ.get('PYVC_DUMP'):
            faulthandler.cancel_dump_traceback_later()
    r['bound'] = un.opts.get('bound')
    return r


UN = {}


def main():
    prop, tier, seed, out = sys.argv[1:5]
    only = sys.argv[5] if len(sys.argv) > 5 else None
    t0 = time.time()
    res = dict(property=prop, units=[], error=None)
    try:
        load(prop)
        import ngmix  # noqa: instrumented
        res['ngmix_file'] = ngmix.__file__
        from pyvc.unit import units_for
        us = [u for u in units_for(prop, tier) if u.opts.get('prove', True)]
        if only:
            us = [u for u in us if only == '@all' or only in u.id]
        for u in us:
            UN[u.id] = u
        opts = dict(units=[u.id for u in us], seed=int(seed), debug=bool(only),
                    scale=3.0 if tier == 'thorough' else 1.0,
                    unit_limit=600 if tier == 'thorough' else 240)
        order = sorted(range(len(us)), key=lambda i: -us[i].opts.get('cost', 1))
        nproc = int(os.environ.get('PYVC_JOBS', '8'))
        if nproc <= 1 or len(us) <= 1:
            res['units'] = [work((i, opts)) for i in order]
        else:
            import multiprocessing as mp
            ctx = mp.get_context('fork')
            with ctx.Pool(min(nproc, len(us)), maxtasksperchild=4) as pool:
                res['units'] = list(pool.imap_unordered(work, [(i, opts) for i in order]))
    except BaseException as x:
        import traceback
        res['error'] = traceback.format_exc()[-2000:]
    res['wall'] = time.time() - t0
    with open(out, 'w') as f:
        json.dump(res, f)


if __name__ == '__main__':
    main()
