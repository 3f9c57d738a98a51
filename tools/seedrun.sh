#!/bin/bash
# usage: tools/seedrun.sh [ID...]   apply each planted bug, run the tests and its property's check, undo
cd "$(dirname "$0")/.." || exit 2
[ $# -eq 0 ] && set -- $(ls seeded)
for id in "$@"; do
  prop=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  if ! git -C /repo apply "$PWD/seeded/$id/patch.diff"; then echo "$id $prop DOES-NOT-APPLY"; continue; fi
  tests=-
  if [ -z "$NOTESTS" ]; then
    bash /opt/vp/test.sh /tmp/seedrun-tests.json > /dev/null 2>&1
    tests=$(python3 - <<'PY'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/seedrun-tests.json'))
bad=set(b['stable'])-set(t['passed'])
print('tests-pass' if not bad else f'tests-FAIL({len(bad)})')
PY
)
  fi
  out=$(timeout 900 ./run "$prop" --tier quick 2>&1); rc=$?
  git -C /repo checkout -q -- .
  verdict=MISSED; [ $rc -eq 1 ] && grep -q "^VIOLATION property=$prop" <<< "$out" && verdict=caught
  echo "$id $prop rc=$rc $verdict $tests $(head -1 <<< "$out" | grep -o 'wall=.*')"
done
