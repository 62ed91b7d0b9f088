#!/bin/bash
# run.sh <property> quick|thorough      decide one property against /repo's working tree
# run.sh replay <file>                  re-execute a recorded violation
# run.sh build <property>               build only
set -u
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
ROOT="$(cd "$(dirname "$0")" && pwd)"
export AXV_ROOT="$ROOT"
PROP="${1:?property}"; TIER="${2:-${VERIF_TIER:-quick}}"
if [ "$PROP" = replay ]; then
    FILE="$2"; PROP=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$FILE"); TIER=replay
fi
if [ "$PROP" = build ]; then PROP="$2"; TIER=build; fi
CRATE=harness
case "$PROP" in
    C17) FACADE=wal;   FEATURES=wal ;;
    C18) FACADE=tuple; FEATURES=tuple ;;
    C10|C11) FACADE=tree; FEATURES=tree,sql ;;
    C19) FACADE=types; FEATURES=types ;;
    C14) FACADE=mt;    FEATURES=mt; CRATE=mt ;;
    C20) FACADE=none;  FEATURES=tcp ;;
    *)   FACADE=none;  FEATURES=sql ;;
esac
export AXMOS_VERIF_FACADE="$ROOT/facade/$FACADE.rs"
export RUSTFLAGS="--cfg axmos_verif -A warnings"
export CARGO_TARGET_DIR="${AXV_TARGET:-$ROOT/target}"
LOG=$(mktemp)
if ! cargo build --offline --manifest-path "$ROOT/$CRATE/Cargo.toml" --features "$FEATURES" >"$LOG" 2>&1; then
    tail -60 "$LOG"; rm -f "$LOG"
    echo "ERROR build failed"; exit 2
fi
rm -f "$LOG"
BIN="$CARGO_TARGET_DIR/debug/axverif"; [ $CRATE = mt ] && BIN="$BIN-mt"
case "$TIER" in
    build) exit 0 ;;
    replay) exec "$BIN" replay "$FILE" ;;
    *) exec "$BIN" check "$PROP" "$TIER" ;;
esac
