#!/bin/bash
# seed.sh ID...: confirms planted bugs in a scratch copy of /repo and runs the property's check on them.
# seed.sh --clean removes the scratch copy.
V=$(cd "$(dirname "$0")/.." && pwd)
S=/tmp/seed; R=$S/repo
[ "$1" = --clean ] && { rm -rf /tmp/seed; exit; }
mkdir -p $S/opt
if [ ! -d $R ]; then cp -a /repo $R; rm -rf /tmp/seed/repo/_build; fi
cp /opt/vp/*.py $S/opt/ 2>/dev/null
sed "s#^R=/repo#R=$R#" /opt/vp/common.sh > $S/opt/common.sh
for f in build test; do sed "s#/opt/vp/#$S/opt/#" /opt/vp/$f.sh > $S/opt/$f.sh; done
git -C $R checkout -q -- . && git -C $R fetch -q /repo HEAD && git -C $R reset -q --hard FETCH_HEAD
base() { python3 - $1 <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open(sys.argv[1]))
def names(x):
    for k in ('passed','stable','tests'):
        if k in x: return set(map(str,x[k])) if not isinstance(x[k],dict) else set(x[k])
    return set()
m=names(b)-names(t); print('    tests missing:', len(m), sorted(m)[:6]) if m else None
sys.exit(1 if m else 0)
P
}
cd $R
bash $S/opt/build.sh >$S/b.log 2>&1 || { tail $S/b.log; exit 1; }
for id in "$@"; do
    d=$V/seeded/$id; demo=$S/demo; rm -rf /tmp/seed/demo; mkdir -p $demo
    cp -r $d/* $demo; rm -f $demo/*.diff $demo/meta.json
    prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
    res="$id ($prop):"
    bash $demo/demo.sh >$S/d0.log 2>&1 || { res="$res DEMO-FAILS-CLEAN($?)"; tail -5 $S/d0.log; }
    git apply $d/patch.diff || { echo "$res DOES NOT APPLY"; continue; }
    bash $S/opt/build.sh >$S/b.log 2>&1 || { tail -5 $S/b.log; res="$res BUILD-FAILS"; }
    bash $S/opt/test.sh $S/t.json >$S/t.log 2>&1; base $S/t.json || res="$res TESTS-FAIL"
    bash $demo/demo.sh >$S/d1.log 2>&1 && res="$res DEMO-PASSES-PATCHED"
    if [ -z "$NOCHECK" ]; then
        REPO=$R VBUILD=$S/vb $V/run.sh ${CHECK:-$prop} >$S/c.log 2>&1; rc=$?
        if [ $rc = 1 ] && grep -q "VIOLATION property=${CHECK:-$prop}" $S/c.log; then res="$res caught"; else res="$res MISSED(rc=$rc)"; fi
    fi
    git checkout -q -- .
    echo "$res"
done
bash $S/opt/build.sh >$S/b.log 2>&1
