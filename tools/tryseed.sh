#!/bin/bash
# tryseed.sh ID...: applies each planted change to a scratch copy of /repo and runs its property's quick check there.
for ID in "$@"; do
  P=$(python3 -c "import json;print(json.load(open('/verif/seeded/$ID/meta.json'))['property'])")
  D=$(mktemp -d /tmp/tryseed.XXXXXX); cp -a /repo "$D/repo"
  if git -C "$D/repo" apply /verif/seeded/$ID/patch.diff; then
    S=$(date +%s); (cd /verif && VERIF_SEED=1 VERIF_TIER=quick ./check.sh $P quick -repo "$D/repo" > /tmp/try.$ID 2>&1); R=$?
    echo "$ID $P exit=$R $(( $(date +%s) - S ))s $(grep -c '^VIOLATION' /tmp/try.$ID) violations: $(grep -m1 '^VIOLATION' /tmp/try.$ID)"
  else
    echo "$ID: does not apply"
  fi
  rm -rf "$D"
done
