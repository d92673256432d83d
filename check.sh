#!/bin/bash
# check.sh run C01 | replay FILE | list : builds the harness against /repo's working tree and runs it.
ROOT="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
export VERIF_ROOT="$ROOT"
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$ROOT/harness/target"
export PATH="$PATH:/root/.cargo/bin:/usr/local/cargo/bin"
mkdir -p "$CARGO_TARGET_DIR" "$ROOT/evidence" "$ROOT/replays" || exit 2
(
  flock 9
  # never trust modification times of the code under test
  rm -rf "$CARGO_TARGET_DIR"/release/.fingerprint/aga8-* "$CARGO_TARGET_DIR"/shipped/.fingerprint/aga8-*
  cd "$ROOT/harness" && cargo build --release --offline --locked -q -p agapbt || exit 1
  case "$*" in
    *C13*|*C14*|list*|replay*)
      # the library and the header as C callers get them
      rm -f "$CARGO_TARGET_DIR/aga8.h" "$CARGO_TARGET_DIR"/shipped/libaga8.*
      cargo build --profile shipped --offline --locked -q -p aga8 ;;
  esac
) 9>"$CARGO_TARGET_DIR/.check-lock" >"$CARGO_TARGET_DIR/build.log.$$" 2>&1
rc=$?
if [ $rc -ne 0 ]; then
  cat "$CARGO_TARGET_DIR/build.log.$$" >&2
  rm -f "$CARGO_TARGET_DIR/build.log.$$"
  echo "ERROR: the harness does not build" >&2
  exit 2
fi
rm -f "$CARGO_TARGET_DIR/build.log.$$"
exec "$CARGO_TARGET_DIR/release/agapbt" "$@"
