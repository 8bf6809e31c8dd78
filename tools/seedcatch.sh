#!/bin/bash
# seedcatch.sh ID...: runs the quick check of the property against each planted bug
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C /repo apply $d/patch.diff || continue
  t=$(date +%s)
  ( cd /verif && timeout 900 python3 check.py $p quick > /tmp/catch.$id 2>&1 ); r=$?
  git -C /repo checkout -q -- .
  echo "$id $p exit=$r $(( $(date +%s) - t ))s $(grep -E '^  (assert|panic|crash)' /tmp/catch.$id | head -2 | tr '\n' ';') $(grep -c VIOLATION /tmp/catch.$id)"
done
