#!/bin/bash
# plant.sh ID [--notest]: confirm a planted bug in a scratch copy of /repo: it applies, builds, the stable tests pass,
# the demonstration passes without it and fails with it.
ID="$1"; B=/verif/seeded/$ID; S=/tmp/plant.$ID
rm -rf "$S"; mkdir -p "$S"
cp -a /repo "$S/repo"
DEMO=$S/demo; mkdir "$DEMO"; cp -a "$B"/. "$DEMO"; rm -f "$DEMO"/*.diff "$DEMO"/meta.json
cd "$S/repo" || exit 2
fail() { echo "PLANT $ID: $1"; rm -rf "$S"; exit 1; }
timeout 300 bash "$DEMO/demo.sh" >"$S/clean.log" 2>&1 || { tail -5 "$S/clean.log"; fail "demo fails on the clean tree"; }
git apply "$B/patch.diff" || fail "does not apply"
rm -rf target/debug/.fingerprint/aga8-*
. <(sed 's/^cd .*//' /opt/vp/env.sh)
cargo test --workspace --features extern --no-fail-fast --offline -- --test-threads 8 >"$S/test.log" 2>&1 || { grep -E "FAILED|failed|^error|panicked" "$S/test.log" | head; fail "tests fail"; }
timeout 300 bash "$DEMO/demo.sh" >"$S/bug.log" 2>&1 && fail "demo passes with the bug"
tail -3 "$S/bug.log"
echo "PLANT $ID: ok ($(grep -c '\.\.\. ok' "$S/test.log") tests)"
rm -rf "$S"
