#!/bin/bash
# seedtest.sh ID [notest] [nocheck]: evaluates a planted bug in a private copy of /repo (mount namespace)
id=$1; shift
V=$(cd "$(dirname "$0")/.." && pwd)
W=$(mktemp -d /tmp/seedtest.XXXXXX)
cp -a /repo $W/repo; mkdir $W/work $W/ev; cp -a $V/seeded/$id $W/seed
prop=$(python3 -c "import json;print(json.load(open('$W/seed/meta.json'))['property'])")
cat > $W/run.sh <<R
mount --bind $W/repo /repo; mount --bind $W/work /opt/vp/work; mount --bind $W/ev $V/evidence
cd /repo
bash /opt/vp/build.sh >/dev/null || echo BUILD0-FAIL
timeout 300 bash $W/seed/demo.sh >$W/d0.log 2>&1 || { echo DEMO-FAILS-UNCHANGED; tail -5 $W/d0.log; }
git apply $W/seed/patch.diff || echo APPLY-FAIL
bash /opt/vp/build.sh >/dev/null || echo BUILD1-FAIL
timeout 300 bash $W/seed/demo.sh >$W/d1.log 2>&1 && echo DEMO-PASSES-PATCHED || { echo demo: \$(tail -1 $W/d1.log | cut -c1-200); }
case "$*" in *notest*) ;; *)
bash /opt/vp/test.sh $W/o.json >/dev/null 2>&1
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('$W/o.json'))
def passed(x):
    x=x.get('passed', x.get('stable', x)) 
    return set(x if isinstance(x,list) else [k for k,v in x.items() if v in (True,'passed','pass')])
m=passed(b)-passed(o)
print('tests:', len(passed(b)), 'lost', len(m), sorted(m)[:3])
P
;; esac
case "$*" in *nocheck*) ;; *)
cd $V; VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.py $prop > $W/c.log 2>&1; rc=\$?
echo "check $prop exit \$rc: \$(grep -v '^   undec' $W/c.log | head -3 | cut -c1-330 | tr '\n' '|')"
cp $V/evidence/$prop.json /tmp/last-ev-$id.json 2>/dev/null
;; esac
R
unshare -m -p -f --mount-proc bash $W/run.sh 2>&1 | sed "s/^/[$id] /"
rm -rf $W
