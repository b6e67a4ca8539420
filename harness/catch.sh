#!/bin/bash
# Development aid: catch.sh [ID ...]: run each planted bug's check on a scratch copy with the bug applied.
cd "$(dirname "$0")/.."
for d in ${@:-$(ls seeded)}; do
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  sc=$(mktemp -d /tmp/catch_XXXX); cp -a /repo "$sc/repo"; git -C "$sc/repo" apply "$PWD/seeded/$d/patch.diff"
  o=$(EXPDB_REPO=$sc/repo VERIF_EVIDENCE=$sc VERIF_REPLAYS=$sc timeout 900 bash harness/check.sh $p quick 2>&1); rc=$?
  echo "$d $p rc=$rc $(echo "$o" | grep -m1 '^VIOLATION')"
  find "$sc" -delete
done
