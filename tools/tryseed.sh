#!/bin/bash
# tryseed.sh <id> [check-only]: applies a planted bug to /repo, builds, tests, runs its
# demonstration and the check of its property, and undoes it.
d=/verif/seeded/$1
prop=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 2; }
if [ "$2" != check ]; then
  (cd /repo && "$d"/demo.sh) >/tmp/demo.out 2>&1 || { echo "demo fails on the unchanged tree"; tail -20 /tmp/demo.out; exit 1; }
fi
git -C /repo apply "$d"/patch.diff || { echo "patch does not apply"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
if [ "$2" != check ]; then
  bash /opt/vp/build.sh >/tmp/seed.build 2>&1 || { echo "does not build"; tail -30 /tmp/seed.build; exit 1; }
  bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.test 2>&1
  python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.json'))
def names(x):
    for k in ('stable','passed','pass','tests'):
        if isinstance(x,dict) and k in x: return set(x[k]) if not isinstance(x[k],dict) else set(k2 for k2,v in x[k].items() if v in ('pass','passed',True))
    return set()
missing = names(b)-names(o)
print('tests broken:', sorted(missing)[:5], len(missing))
P
  (cd /repo && "$d"/demo.sh) >/tmp/demo.out 2>&1; rc=$?
  echo "demo with the bug: rc=$rc: $(tail -1 /tmp/demo.out)"
fi
cd /verif
for c in ${3:-$prop}; do
  s=$(date +%s); ./check.sh $c quick >/tmp/seed.check 2>&1; rc=$?
  echo "$1: check $c rc=$rc $(grep -c ^VIOLATION /tmp/seed.check) shown, $(( $(date +%s)-s )) s; $(grep -m1 '^---' /tmp/seed.check | cut -c1-200)"
done
