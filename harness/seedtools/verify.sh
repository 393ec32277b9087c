#!/bin/bash
# verify.sh ID...: planted change ID: demo passes without, builds, tests pass, demo fails, check catches
cd /repo || exit 1
[ -z "$(git status --porcelain)" ] || { echo "/repo not clean"; exit 1; }
trap 'git -C /repo checkout -q -- .' EXIT
for id in "$@"; do
  d=/verif/seeded/$id
  python3 /verif/harness/seedtools/mk.py "$id" || exit 1
  pid=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  if [ -z "$SKIPDEMO" ]; then
  bash "$d/demo.sh" >/tmp/seed.out 2>&1; r0=$?
  fi
  git apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  if [ -z "$SKIPDEMO" ]; then
  bash "$d/demo.sh" >/tmp/seed.out1 2>&1; r1=$?
  bash /opt/vp/test.sh /tmp/seed.json >/tmp/seed.tlog 2>&1
  t=$(python3 - <<P
import json
b=json.load(open('/opt/vp/BASELINE.json')); o=json.load(open('/tmp/seed.json'))
want=set(b['stable'])
print('tests missing: %d' % len([x for x in want if x not in set(o['passed'])]) )
P
)
  fi
  python3 /verif/check.py "$pid" >/tmp/seed.chk 2>&1; rc=$?
  git checkout -q -- .
  echo "$id $pid: demo clean=$r0 patched=$r1 | $t | check exit=$rc $(grep -c VIOLATION /tmp/seed.chk) :: $(head -1 /tmp/seed.chk | cut -c1-150) :: $(tail -1 /tmp/seed.chk | grep -o '[0-9.]*s (build.*')"
done
