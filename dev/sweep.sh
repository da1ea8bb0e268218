#!/bin/bash
# dev helper: sweep.sh [ID...] -- applies each seeded bug to a scratch copy and runs its property's quick check
cd "$(dirname "$0")/.."
ids=("$@"); [ ${#ids[@]} = 0 ] && ids=($(ls seeded))
for b in "${ids[@]}"; do
  t=$(mktemp -d /tmp/sweep.XXXXXX); cp -a /repo "$t/repo"
  (cd "$t/repo" && git apply /verif/seeded/$b/patch.diff) || { echo "$b PATCH FAILS"; find "$t" -delete; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  s=$(date +%s); out=$(VERIF_REPO=$t/repo timeout 900 python3-vt -m vf.run $p 2>&1); rc=$?
  echo "$b $p rc=$rc $(( $(date +%s) - s ))s $(echo "$out" | grep VIOLATION | cut -c1-150 | head -2)"
  find "$t" -delete
done
