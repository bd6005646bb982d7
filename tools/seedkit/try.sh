#!/bin/bash
# try.sh SEED_DIR... : applies each planted bug to /repo, builds and runs the stable tests, the demonstration and the check of its property, and undoes it
for d in "$@"; do
  d=$(realpath "$d"); id=$(basename "$d"); p=$(python3 -c "import json,sys; print(json.load(open('$d/meta.json'))['property'])")
  cd /repo || exit 2
  git diff --quiet || { echo "/repo is not clean"; exit 2; }
  if [ -z "$SKIPCLEAN" ]; then bash "$d/demo.sh" >/tmp/seed.demo0 2>&1; c0=$?; else c0=skip; fi
  git apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  bash "$d/demo.sh" >/tmp/seed.demo1 2>&1; c1=$?
  t=skip
  if [ -z "$SKIPTEST" ]; then
    bash /opt/vp/test.sh /tmp/seed.t.json >/tmp/seed.tl 2>&1
    t=$(python3 -c "
import json
b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); t=json.load(open('/tmp/seed.t.json'))
print('missing:%d' % len(b-set(t['passed'])))")
  fi
  k=skip
  if [ -z "$SKIPCHECK" ]; then
    s=$(date +%s); python3 /verif/check.py ${PROP:-$p} --tier quick >/tmp/seed.check 2>&1; k=$?
    k="$k ($(grep -m1 -o 'VIOLATION.*' /tmp/seed.check | cut -c1-80); $(( $(date +%s) - s )) s)"
  fi
  git checkout -q -- .
  echo "$id $p demo clean=$c0 patched=$c1 [$(grep -m1 wrong: /tmp/seed.demo1)] tests $t check $k"
done
