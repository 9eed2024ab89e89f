#!/bin/bash
# plant.sh ID [TIER]: tries out the planted bug seeded/ID (or records /repo's current diff as its patch):
# it must build and pass the stable tests, its demo must tell the trees apart; says whether the check catches it.
V=/verif; id=$1; d=$V/seeded/$id; tier=${2:-quick}
[ -f "$d/main.rs" ] && { [ -f "$d/demo.sh" ] || { cp $V/tools/demo.sh "$d/demo.sh"; chmod +x "$d/demo.sh"; }; }
if [ -n "$(git -C /repo status --porcelain)" ]; then git -C /repo diff > "$d/patch.diff"; git -C /repo checkout -q -- .; fi
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
crate=$(python3 -c "import json;print(json.load(open('$V/claims.json')).get('$prop',{}).get('crate',''))")
export DEMO_TARGET_DIR=/tmp/demotarget
trap 'git -C /repo checkout -q -- .' EXIT
bash /opt/vp/build.sh >/dev/null 2>&1
(cd /repo && bash "$d/demo.sh" > /tmp/demo.clean 2>&1); c=$?
git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
bash /opt/vp/build.sh >/tmp/plant.build 2>&1 || { echo "$id: does not build"; tail -20 /tmp/plant.build; exit 1; }
bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1
t=$(python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); r=json.load(open('/tmp/plant.json'))
def names(x):
    for k in ('stable','passed','pass','tests'):
        if k in x: return x[k]
    return x
want=names(b); got=names(r)
if isinstance(got,dict): got=[k for k,v in got.items() if v in ('pass','passed',True)]
miss=[w for w in want if w not in set(got)]
print('tests ok' if not miss else 'TESTS FAIL: %s'%miss[:5])
PY
)
(cd /repo && bash "$d/demo.sh" > /tmp/demo.bug 2>&1); b=$?
res="not run"
if [ -n "$crate" ]; then
  s=$(date +%s); (cd $V && VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./check.sh $crate $prop $tier > /tmp/plant.check 2>&1); r=$?
  res="check exit $r in $(( $(date +%s)-s ))s"; grep VIOLATION /tmp/plant.check | head -3
fi
echo "$id [$prop]: demo clean=$c bug=$b; $t; $res"
