#!/opt/venv/bin/python
"""Decide one property:  check.py PROPERTY [quick|thorough] [--baseline]

Generates and discharges the proof obligations of the property from the
current source of the repository, evaluates the same contracts at run time on
the real code, replays every refuting input on the real code, and writes
evidence/PROPERTY.json.  Exit 0: held; 1: VIOLATION line printed; 2: the check
itself failed."""
import json
import re
import os
import shutil
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'


def env_for(tmp):
    e = dict(os.environ)
    e.update(PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', NUMBA_CACHE_DIR=os.path.join(tmp, 'nb'),
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', MKL_NUM_THREADS='1', NUMBA_NUM_THREADS='1',
             TMPDIR=tmp, PYTHONPATH='')
    return e


def start(script, args, tmp, extra=None):
    e = env_for(tmp)
    if extra:
        e.update(extra)
    log = open(os.path.join(tmp, '%s.%d.log' % (script, time.time_ns())), 'w')
    return subprocess.Popen([PY, os.path.join(HERE, 'pyvc', script)] + args, cwd=tmp, env=e, stdout=log,
                            stderr=subprocess.STDOUT, start_new_session=True), log


def wait(p, limit):
    try:
        p[0].wait(limit)
        return True
    except subprocess.TimeoutExpired:
        try:
            os.killpg(p[0].pid, 9)
        except OSError:
            pass
        p[0].wait()
        return False


def loadj(fn):
    try:
        with open(fn) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def died(R):
    """a run-time process was ended by a signal (abort, bus error, segmentation fault)"""
    m = re.search(r'a run-time process ended with (-\d+)', str((R or {}).get('error')))
    return bool(m) and int(m.group(1)) in (-4, -6, -7, -8, -11)


def findings(prop):
    out = []
    fn = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(fn):
        for line in open(fn):
            line = line.strip()
            if line.startswith('finding: property=%s ' % prop):
                # finding: property=ID unit=NAME clause=TEXT :: description
                head, _, desc = line.partition(' :: ')
                d = {}
                rest = head[len('finding: '):]
                unit = rest.split(' unit=')[1].split(' clause=')[0]
                clause = rest.split(' clause=')[1]
                out.append((unit, clause, desc))
    return out


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    for a in sys.argv[2:]:
        if a in ('quick', 'thorough'):
            tier = a
    baseline_mode = '--baseline' in sys.argv
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    tmp = tempfile.mkdtemp(prefix='vc-%s-' % prop)
    try:
        rc = run(prop, tier, seed, tmp, baseline_mode, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def run(prop, tier, seed, tmp, baseline_mode, t0):
    limit = 800 if tier == 'quick' else 3400
    pout, rout = os.path.join(tmp, 'p.json'), os.path.join(tmp, 'r.json')
    pp = start('prove.py', [prop, tier, str(seed), pout], tmp)
    rp = start('real.py', [prop, tier, str(seed), rout], tmp)
    okr = wait(rp, limit)
    R = loadj(rout)
    if died(R):
        # the compiled code died (a write out of an array's bounds, say): again
        # with bounds checking, where that is an IndexError and so a failed contract
        rp = start('real.py', [prop, tier, str(seed), rout], tmp, dict(NUMBA_BOUNDSCHECK='1'))
        wait(rp, max(60, limit - (time.time() - t0)))
        R = loadj(rout)
    left = max(60, limit - (time.time() - t0))
    if R and any(r['status'] == 'fail' for r in R.get('results', ())):
        # the real code breaks the contract: the proof only adds detail
        left = min(left, 60)
    okp = wait(pp, left)
    P = loadj(pout)
    if R is None or R.get('error'):
        print('the run-time process failed: %s' % (R and R.get('error')))
        for fn in sorted(os.listdir(tmp)):
            if fn.startswith('real.py'):
                print(open(os.path.join(tmp, fn)).read()[-1500:])
        return 2
    notes = []
    if P is None or P.get('error'):
        notes.append('the verifier could not process the tree: %s' % (P and P.get('error')))
        P = dict(units=[])
    base = loadj(os.path.join(HERE, 'baseline', prop + '.json')) or {}
    known = findings(prop)

    # candidates for replay
    req, seen = [], set()
    for u in P['units']:
        per = 0
        for o in u['obligations']:
            if o['status'] != 'proved' and o.get('env') is not None:
                key = (u['unit'], o['name'], json.dumps(o['env'], sort_keys=True))
                if key not in seen and per < 40:
                    seen.add(key)
                    per += 1
                    req.append(dict(unit=u['unit'], env=o['env'], name=o['name']))
    undecided = [u['unit'] for u in P['units'] if u['error'] or any(o['status'] != 'proved' for o in u['obligations'])]
    replays = []
    if req:
        fn = os.path.join(tmp, 'req.json')
        json.dump(req[:400], open(fn, 'w'))
        out2 = os.path.join(tmp, 'r2.json')
        r2 = start('real.py', [prop, tier, str(seed), out2, fn], tmp)
        wait(r2, 200)
        R2 = loadj(out2)
        if died(R2):
            r2 = start('real.py', [prop, tier, str(seed), out2, fn], tmp, dict(NUMBA_BOUNDSCHECK='1'))
            wait(r2, 200)
            R2 = loadj(out2)
        if R2 and not R2.get('error'):
            replays = R2['results']
    violations = []

    def is_known(unit, clause):
        for ku, kc, desc in known:
            if ku == unit and kc == clause:
                return desc
        return None

    hit_known = set()

    def violation(unit, clause, kind, data):
        d = is_known(unit, clause)
        if d is not None:
            hit_known.add((unit, clause, d))
            return
        violations.append(dict(unit=unit, clause=clause, kind=kind, data=data))

    replayed_units = set()
    for r in replays:
        if r['status'] == 'fail':
            replayed_units.add(r['unit'])
            for nm, detail in r['failures'][:1]:
                violation(r['unit'], nm, 'replayed', dict(env=r['env'], detail=detail))
    for r in R['results']:
        if r['status'] == 'fail':
            replayed_units.add(r['unit'])
            f = r['fail']
            for nm, detail in f['failures'][:1]:
                violation(r['unit'], nm, 'run-time contract', dict(env=f['env'], detail=detail, seed=f['seed']))
    # obligations that are discharged on the reference tree and refuted now
    nfif = []
    for u in P['units']:
        if u['unit'] in replayed_units:
            continue
        bl = set(base.get(u['unit'], ()))
        for o in u['obligations']:
            if o['status'] == 'refuted' and o['by'] in ('evaluation', 'z3', 'simplifier') and o['name'] in bl:
                nfif.append(dict(unit=u['unit'], clause=o['name'], kind='refuted', data=o))
                break
    violations_known = [dict(unit=a, clause=b, desc=c) for a, b, c in sorted(hit_known)]
    for v in nfif:
        if is_known(v['unit'], v['clause']) is None:
            violations.append(dict(v, nfif=True))

    # ------------------------------------------------------- evidence
    obl = disch = bobl = bdisch = 0
    by = {}
    und = []
    tsolve = 0.0
    functions = set()
    npaths = loops = loopobl = 0
    stats = {}
    units_ev = []
    bounded = []
    for u in P['units']:
        n = len(u['obligations'])
        d = sum(o['status'] == 'proved' for o in u['obligations'])
        undischarged_error = u['error'] is not None
        if undischarged_error:
            und.append('%s: %s' % (u['unit'], u['error']))
        if u.get('bound'):
            # all values arbitrary, but a fixed size or number: counted apart
            bobl += n
            bdisch += d
        else:
            obl += n
            disch += d
        for o in u['obligations']:
            tsolve += o['wall']
            if o['status'] == 'proved':
                by[o['by']] = by.get(o['by'], 0) + 1
            else:
                und.append('%s: %s (%s)' % (u['unit'], o['name'], o['status']))
        functions |= set(u['functions'])
        npaths += u['paths']
        loops += u['loops']
        loopobl += u['loop_obls']
        for k, v in (u.get('stats') or {}).items():
            stats[k] = stats.get(k, 0) + v
        covs = u.get('covers') or {}
        units_ev.append(dict(unit=u['unit'], obligations=n, discharged=d, paths=u['paths'], wall_s=round(u['wall'], 2),
                             covers=covs, bound=u.get('bound'), error=u['error']))
        if u.get('bound'):
            bounded.append('%s: %s' % (u['unit'], u['bound']))
        if n == 0:
            und.append('%s: no obligations' % u['unit'])
        if covs and not all(covs.values()):
            und.append('%s: a cover was not reached' % u['unit'])
    rt = [dict(unit=r['unit'], evaluations=r['n'], skipped=r.get('skipped', 0), clauses_checked=r.get('checks', 0),
               status=r['status']) for r in R['results']]
    runtime_only = [r['unit'] for r in R['results'] if r['unit'] not in {u['unit'] for u in P['units']}]
    man = loadj(os.path.join(HERE, 'harness', 'assumptions.json')) or {}
    trusted = man.get('trusted_base', []) + man.get('per_property', {}).get(prop, [])
    level = 'proof'
    for c in (loadj(os.path.join(HERE, 'MANIFEST.json')) or {}).get('checks', ()):
        if c['property'] == prop:
            level = c['level']
    ev = dict(
        property=prop, tier=tier, seed=seed, level=level,
        coverage=dict(
            explanation='obligations generated from the current source by symbolic execution of the functions under '
                        'contract and discharged on this run; those of units with a stated bound (bounded_units) hold '
                        'for all values at those sizes and are counted apart, under bounded_obligations',
            obligations=obl, discharged=disch,
            bounded_obligations=bobl, bounded_discharged=bdisch,
            checker_cmd='/opt/venv/bin/python %s/check.py %s %s' % (HERE, prop, tier),
            trusted_base=trusted or ['pyvc (this verifier)'],
            by_back_end=by, solver=stats, prove_time_s=round(tsolve, 2),
            functions_under_contract=sorted(functions), paths=npaths,
            loops_with_inferred_invariant=loops, loop_invariant_steps=loopobl,
            units=units_ev, undischarged=und[:60],
            bounded_units=bounded,
            runtime_contract_checks=dict(
                label='bounded: random inputs on the real code, cross-check of the contracts and stand-in for '
                      'undischarged units; never counted as proved',
                evaluations=sum(r['evaluations'] for r in rt), units=rt, runtime_only_units=runtime_only,
                stand_in_for=undecided),
            replays=len(replays), notes=notes,
        ),
        assumptions=man.get('assumptions', []) + man.get('per_property_assumptions', {}).get(prop, []),
        wall_s=round(time.time() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1, default=str)
    if baseline_mode:
        os.makedirs(os.path.join(HERE, 'baseline'), exist_ok=True)
        bl = {}
        for u in P['units']:
            names = {}
            for o in u['obligations']:
                names[o['name']] = names.get(o['name'], True) and o['status'] == 'proved'
            bl[u['unit']] = sorted(k for k, v in names.items() if v)
        with open(os.path.join(HERE, 'baseline', prop + '.json'), 'w') as f:
            json.dump(bl, f, indent=0, sort_keys=True)

    # --------------------------------------------------------- report
    print('%s %s: %d obligations, %d discharged (%d, %d more in bounded units), %d paths, %d functions, %d run-time evaluations, %.1f s' % (
        prop, tier, obl, disch, bobl, bdisch, npaths, len(functions), sum(r['evaluations'] for r in rt), time.time() - t0))
    for x in und[:20]:
        print('undischarged (run-time contract checking stands in): %s' % x[:300])
    for n in notes:
        print('note: ' + n[-600:])
    for ku, kc, desc in sorted(hit_known):
        print('KNOWN-FINDING: property=%s %s [%s] %s' % (prop, ku, kc, desc))
    if violations:
        rd = os.path.join(HERE, 'evidence', 'replay')
        os.makedirs(rd, exist_ok=True)
        violations.sort(key=lambda v: bool(v.get('nfif')))
        fn = os.path.join(rd, '%s.json' % prop)
        with open(fn, 'w') as f:
            json.dump(dict(property=prop, how='PYTHONPATH=%s %s %s/replay.py <this file>' % (HERE, PY, HERE),
                           violations=violations), f, indent=1, default=str)
        for v in violations[:8]:
            print('violated: unit=%s clause=%r (%s) %s' % (v['unit'], v['clause'], v['kind'],
                                                           json.dumps(v['data'], default=str)[:700]))
        v = violations[0]
        print('VIOLATION property=%s replay=%s%s' % (prop, fn, ' no-failing-input-found' if v.get('nfif') else ''))
        return 1
    if obl + bobl == 0 and not any(r['evaluations'] for r in rt):
        print('nothing was checked')
        return 2
    return 0


if __name__ == '__main__':
    main()
