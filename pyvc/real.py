"""Run-time process: evaluates the same contracts on the real ngmix.

usage: real.py PROPERTY TIER SEED OUT [REQUESTS.json]

REQUESTS: list of {"unit":..., "env":...} to replay; without it, random
evaluations of every unit.
"""
import importlib
import json
import os
import signal
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.dirname(HERE))


def main():
    prop, tier, seed, out = sys.argv[1:5]
    req = json.load(open(sys.argv[5])) if len(sys.argv) > 5 and sys.argv[5].endswith('.json') else None
    only = sys.argv[5] if len(sys.argv) > 5 and req is None else None
    seed = int(seed)
    t0 = time.time()
    res = dict(property=prop, results=[], error=None)
    try:
        repo = os.environ.get('NGMIX_REPO', '/repo')
        sys.path.insert(0, repo)
        import ngmix
        assert os.path.realpath(ngmix.__file__).startswith(os.path.realpath(repo)), ngmix.__file__
        from pyvc.prove import load_harness
        load_harness(prop)
        from pyvc.unit import units_for
        us = {u.id: u for u in units_for(prop, tier) if u.opts.get('real', True)}
        if only:
            us = {k: u for k, u in us.items() if only in k}
        jobs = []
        if req is not None:
            for r in req:
                if r['unit'] in us:
                    jobs.append((r['unit'], r.get('env')))
            groups = [[j] for j in jobs]
        else:
            groups = [[(k, None)] for k in us]
        limit = float(os.environ.get('PYVC_REAL_S', '40' if tier == 'quick' else '240'))
        import multiprocessing as mp
        ctx = mp.get_context('fork')
        global US, OPT
        US = us
        OPT = (tier, seed, limit)
        n = max(1, min(int(os.environ.get('PYVC_JOBS', '8')) // (2 if req is None else 1), len(groups)))
        # neighbouring units use the same jitted functions: chunk them
        k = max(1, len(groups) // n if req is None else 1)
        chunks = [sum(groups[i:i + k], []) for i in range(0, len(groups), k)]
        res['results'] = run_chunks(ctx, chunks, n)
    except BaseException:
        import traceback
        res['error'] = traceback.format_exc()[-2000:]
    res['wall'] = time.time() - t0
    with open(out, 'w') as f:
        json.dump(res, f)


US = {}
OPT = ()
HANG = int(os.environ.get('PYVC_HANG_S', '120'))      # no evaluation takes anything like this long


def child(jobs, fn):
    with open(fn, 'w') as f:
        def note(d):
            f.write(json.dumps(d, default=str) + '\n')
            f.flush()
        for r in work(jobs, note):
            note(dict(result=r))
        note(dict(end=True))


def run_chunks(ctx, chunks, n):
    """each chunk in its own process; an evaluation that does not come back ends its process"""
    import tempfile
    todo = list(enumerate(chunks))
    running = {}
    out = []
    d = tempfile.mkdtemp(prefix='real-')
    try:
        while todo or running:
            while todo and len(running) < n:
                i, c = todo.pop(0)
                fn = os.path.join(d, str(i))
                p = ctx.Process(target=child, args=(c, fn))
                p.start()
                running[i] = (p, fn, c)
            from multiprocessing.connection import wait
            wait([p.sentinel for p, _, _ in running.values()])
            for i, (p, fn, c) in list(running.items()):
                if p.is_alive():
                    continue
                p.join()
                del running[i]
                last, ended = None, False
                for line in open(fn):
                    m = json.loads(line)
                    if 'result' in m:
                        out.append(m['result'])
                    elif 'end' in m:
                        ended = True
                    else:
                        last = m
                if ended:
                    continue
                if p.exitcode == -signal.SIGALRM and last is not None:
                    fs = [['every evaluation ends', 'no result within %d s' % HANG]]
                    if last.get('env') is not None:
                        out.append(dict(unit=last['unit'], status='fail', failures=fs, env=last['env'], n=1, checks=1, replay=True, wall=HANG))
                    else:
                        out.append(dict(unit=last['unit'], status='fail', n=1, skipped=0, checks=1, covers=[], wall=HANG,
                                        fail=dict(failures=fs, env={}, seed=last['seed'])))
                    continue
                raise RuntimeError('a run-time process ended with %r in %r' % (p.exitcode, last))
    finally:
        import shutil
        shutil.rmtree(d, ignore_errors=True)
    return out


def work(jobs, note):
    from pyvc.vcreal import run_once
    from pyvc.vcsym_ser import ser_env
    tier, seed, limit = OPT
    per = limit / max(1, len(jobs))
    carry = 0.0
    for name, env in jobs:
        u = US[name]
        t0 = time.time()
        if env is not None:
            note(dict(unit=name, env=env))
            signal.alarm(HANG)
            st, fails, vc = run_once(u, env, seed)
            signal.alarm(0)
            yield dict(unit=name, status=st, failures=fails[:5], env=ser_env(vc.env), n=1,
                       checks=vc.checks, replay=True, wall=time.time() - t0)
            continue
        n = u.opts.get('samples', 60) * (8 if tier == 'thorough' else 1)
        nok = nskip = checks = 0
        covers = set()
        fail = None
        k = 0
        while k < n * 6 and nok < n:
            note(dict(unit=name, seed=seed * 1000003 + k))
            signal.alarm(HANG)
            st, fails, vc = run_once(u, None, seed * 1000003 + k)
            signal.alarm(0)
            k += 1
            if st == 'skip':
                nskip += 1
            elif st == 'ok':
                nok += 1
                checks += vc.checks
                covers |= vc.covers
            else:
                fail = dict(failures=fails[:5], env=ser_env(vc.env), seed=vc.seed)
                break
            if not vc.env and st == 'ok':
                break       # nothing random in it
            if time.time() - t0 > per + carry and nok >= 3:
                break
        carry = max(0.0, per + carry - (time.time() - t0))
        yield dict(unit=name, status='fail' if fail else 'ok' if nok else 'skip', n=nok, skipped=nskip,
                   checks=checks, covers=sorted(covers), fail=fail, wall=time.time() - t0)


if __name__ == '__main__':
    main()
