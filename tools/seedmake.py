"""seedmake.py: write /verif/seeded/<id>/ from (property, file, old, new, needs, breaks, demo python)."""
import os, subprocess, json, shutil, sys, tempfile


def make(id, prop, edits, needs, breaks, demo):
    d = '/verif/seeded/' + id
    os.makedirs(d, exist_ok=True)
    c = tempfile.mkdtemp(prefix='mk_', dir='/tmp')
    subprocess.check_call(['git', 'clone', '-q', '/repo', c + '/r'])
    for f, old, new in edits:
        p = os.path.join(c, 'r', f)
        s = open(p).read()
        assert s.count(old) == 1, (id, f, s.count(old))
        open(p, 'w').write(s.replace(old, new))
    diff = subprocess.check_output(['git', '-C', c + '/r', 'diff']).decode()
    open(d + '/patch.diff', 'w').write(diff)
    shutil.rmtree(c)
    open(d + '/demo.py', 'w').write(demo.lstrip())
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$PWD\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=prop, needs=needs, what_it_breaks=breaks), open(d + '/meta.json', 'w'), indent=1)
