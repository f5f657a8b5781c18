#!/bin/bash
# catch.sh ID...: does the property's quick check catch the planted bug? (in a worktree, VERIF_REPO)
for id in "$@"; do
  w=$(mktemp -d /tmp/catch.XXXXXX); git -C /repo worktree add -q --detach $w/r HEAD
  git -C $w/r apply /verif/seeded/$id/patch.diff || echo "$id: NOT APPLIED"
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  cp -a /repo/_build/src $w/ 2>/dev/null; mkdir -p $w/r/_build; mv $w/src $w/r/_build/ 2>/dev/null
  o=$(cd /verif; VERIF_REPO=$w/r VERIF_SEED=1 python3 run.py $p 2>&1); rc=$?
  echo "$id: $p rc=$rc $(echo "$o" | grep -m1 VIOLATION | cut -c1-300)"
  git -C /repo worktree remove --force $w/r; rm -rf "$w"
done
