#!/bin/bash
# tools/tryseed.sh ID [PROPERTY]...: run the checks against planted changes (applied to /repo and undone).
# Without a property the one in meta.json is used.
cd "$(dirname "$0")/.."
id=$1; shift
props="$*"
[ -n "$props" ] || props=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
git -C /repo apply "$PWD/seeded/$id/patch.diff" || exit 3
trap 'git -C /repo checkout -q -- .' EXIT
for p in $props; do
  out=$(VERIF_SEED=${VERIF_SEED:-1} bin/check $p quick 2>&1); rc=$?
  v=$(echo "$out" | grep -c "^VIOLATION property=$p ")
  echo "$id $p rc=$rc violations=$v $(echo "$out" | tail -1 | cut -c1-150)"
done
