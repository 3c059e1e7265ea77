#!/bin/bash
# For each seeded bug (or those named): apply it to /repo, run the check of its property, undo.
cd /verif
for b in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$b/patch.diff || continue
  s=$(date +%s)
  timeout 900 python3 check.py $p > /tmp/catch.$b.log 2>&1; r=$?
  git -C /repo checkout -q -- .
  echo "$b $p exit $r $(( $(date +%s) - s )) s $(grep -c VIOLATION /tmp/catch.$b.log) $(grep -m1 -i 'violat' /tmp/catch.$b.log | cut -c1-200)"
done
