#!/bin/bash
# seed.sh ID [PROPS...]: confirms a planted bug (applies, builds, stable tests pass, demo fails with it and passes without),
# then runs the quick check of its property (or the given ones).  Leaves /repo clean.
v=$(cd "$(dirname "$0")/.." && pwd); id=$1; shift
d=$v/seeded/$id
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo is dirty"; exit 2; }
if [ -z "$NOCONFIRM" ]; then
(cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/demo0.log 2>&1) || { echo "$id: demo FAILS on the clean tree"; tail -5 /tmp/demo0.log; exit 1; }
fi
git -C /repo apply "$d/patch.diff" || { echo "$id: patch does not apply"; exit 1; }
if [ -z "$NOCONFIRM" ]; then
bash /opt/vp/build.sh >/tmp/b.log 2>&1 || echo "$id: does not build"
bash /opt/vp/test.sh /tmp/t.json >/tmp/t.log 2>&1; tail -1 /tmp/t.log
python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/t.json'))
print(f"$id: tests", t if not isinstance(t,dict) else {k:(len(v) if hasattr(v,'__len__') else v) for k,v in t.items()})
P
(cd /repo && timeout 300 bash "$d/demo.sh" >/tmp/demo1.log 2>&1) && echo "$id: demo PASSES with the patch" || echo "$id: demo fails with the patch, as it should"
fi
for p in ${@:-$prop}; do
	VERIF_SEED=1 timeout 900 $v/check.sh $p quick > /tmp/seed_$p.out 2>&1; rc=$?
	echo "$id: $p rc=$rc $(tail -1 /tmp/seed_$p.out | cut -c1-120)"
done
git -C /repo checkout -q -- .
[ -z "$NOCONFIRM" ] && bash /opt/vp/build.sh >/tmp/b.log 2>&1
exit 0
