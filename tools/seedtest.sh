#!/bin/bash
# seedtest.sh ID [notests]: confirm a planted bug in a scratch copy of /repo
# (applies, builds, passes the stable tests, demo 0 without / nonzero with it)
# and run this property's check against the copy.
ID=$1; S=${SEEDS:-/verif/seeded}/$ID; C=/tmp/seed_$ID
P=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
rm -rf "$C"; cp -a /repo "$C"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=$C PYTHONHASHSEED=0 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
cd "$C" || exit 1
bash $S/demo.sh >/tmp/seed_$ID.d0 2>&1; a=$?
git apply $S/patch.diff || { echo "$ID patch does not apply"; rm -rf "$C"; exit 1; }
bash $S/demo.sh >/tmp/seed_$ID.d1 2>&1; b=$?
t=skipped
if [ "$2" != notests ]; then
  R=/tmp/seed_$ID.r; rm -rf $R; mkdir -p $R
  /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 -n ${NJ:-4} --dist worksteal --junitxml=$R/rest.xml \
     --ignore=ngmix/tests/test_medsreaders.py --ignore=ngmix/tests/test_metacal_cache.py --ignore=ngmix/tests/test_fastexp.py ngmix >/tmp/seed_$ID.t 2>&1
  /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml=$R/m.xml ngmix/tests/test_metacal_cache.py >>/tmp/seed_$ID.t 2>&1
  /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=300 -o junit_family=xunit2 --junitxml=$R/f.xml ngmix/tests/test_fastexp.py >>/tmp/seed_$ID.t 2>&1
  python3 /opt/vp/results.py $R/out.json "junit:$R/*.xml" >/dev/null 2>&1
  t=$(python3 - $R/out.json <<'P'
import json,sys
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
d=json.load(open(sys.argv[1]))
ok=set()
for k,v in d.items():
    if isinstance(v,list) and 'pass' in k: ok|=set(v)
    elif isinstance(v,str) and v.startswith('pass'): ok.add(k)
    elif isinstance(v,dict):
        for x,y in v.items():
            if str(y).startswith('pass'): ok.add(x)
bad=sorted(b-ok)
print('tests-ok' if not bad else 'TESTS-FAIL %d %s'%(len(bad),bad[:3]))
P
)
  rm -rf $R
fi
cd /verif; NGMIX_REPO=$C timeout 900 ./check.py $P >/tmp/seed_$ID.c 2>&1; c=$?
cd /; rm -rf "$C"
echo "$ID $P demo $a/$b $t check $c $(grep -m1 VIOLATION /tmp/seed_$ID.c | cut -c1-160)"
