#!/opt/venv/bin/python
"""replay.py FILE: evaluate the recorded failing inputs on the real code"""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.environ.get('NGMIX_REPO', '/repo'))


def main():
    d = json.load(open(sys.argv[1]))
    import ngmix
    print('ngmix from', ngmix.__file__)
    from pyvc.prove import load_harness
    from pyvc.unit import units_for
    from pyvc.vcreal import run_once
    load_harness(d['property'])
    us = {u.id: u for u in units_for(d['property'], 'thorough')}
    bad = 0
    for v in d['violations']:
        env = v['data'].get('env')
        if v['unit'] not in us or env is None:
            print('no input recorded:', v['unit'], v['clause'], v['data'].get('detail'))
            continue
        st, fails, vc = run_once(us[v['unit']], env, v['data'].get('seed', 1))
        print(v['unit'], st, fails[:3], env)
        bad += st == 'fail'
    sys.exit(1 if bad else 0)


main()
