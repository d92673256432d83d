#!/bin/bash
# catch.sh ID [C01 C02 ...]: apply a planted bug to /repo, run its property's check (or the given ones), undo it.
ID="$1"; shift; B=/verif/seeded/$ID
PS="$*"; [ -n "$PS" ] || PS=$(python3 -c "import json;print(json.load(open('$B/meta.json'))['property'])")
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
git -C /repo apply "$B/patch.diff" || exit 2
for p in $PS; do
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick /verif/check.sh run "$p" >/tmp/catch.log 2>&1; rc=$?
  echo "CATCH $ID $p rc=$rc $(grep VIOLATION /tmp/catch.log | head -1)"
done
git -C /repo checkout -- .
