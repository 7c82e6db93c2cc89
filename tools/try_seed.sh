#!/bin/bash
# try_seed.sh ID...: applies a planted change to /repo, runs its property's check, undoes it
cd /verif
for id in "$@"; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  git -C /repo apply /verif/seeded/$id/patch.diff || { echo "$id: patch does not apply"; continue; }
  out=$(./run_check.sh $p 2>&1); rc=$?
  (cd /repo && bash /verif/seeded/$id/demo.sh >/tmp/demo.out 2>&1); d1=$?
  git -C /repo checkout -- .
  (cd /repo && bash /verif/seeded/$id/demo.sh >/tmp/demo0.out 2>&1); d0=$?
  echo "$id ($p): check rc=$rc, demo patched=$d1 clean=$d0 :: $(echo "$out" | grep -m1 '^  \[' | cut -c1-160)"
done
