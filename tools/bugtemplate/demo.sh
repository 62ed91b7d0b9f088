#!/bin/bash
# Run with cwd = the repository. Builds the small program beside this file against it, in a scratch
# directory, and runs it there. Exit 0: behaves as it should; nonzero: the property is broken.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"; REPO="$PWD"
export HOME="${HOME:-/root}" PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0
W="$(mktemp -d)"; trap 'rm -rf "$W"' EXIT
mkdir -p "$W/src" "$W/run"
cp "$HERE/main.rs" "$W/src/main.rs"; cp -r "$HERE/jem" "$W/jem"
cat > "$W/Cargo.toml" <<T
[package]
name = "demo"
version = "0.1.0"
edition = "2024"
[dependencies]
axmosdb = { path = "$REPO/crates/axmos-db" }
[patch.crates-io]
jemallocator = { path = "jem" }
[profile.dev]
debug = false
[workspace]
T
cp "$REPO/Cargo.lock" "$W/Cargo.lock" 2>/dev/null
export RUSTFLAGS="-A warnings" CARGO_TARGET_DIR="$W/target"
if [ -f "$HERE/facade.rs" ]; then
    export AXMOS_VERIF_FACADE="$HERE/facade.rs" RUSTFLAGS="--cfg axmos_verif -A warnings"
fi
cargo build --offline --manifest-path "$W/Cargo.toml" >"$W/log" 2>&1 || { tail -40 "$W/log"; exit 99; }
cd "$W/run" && timeout 120 "$W/target/debug/demo" "$W/run"
