#!/bin/bash
# Builds the extractor and warms the harness dependencies. Every check builds what it misses by itself.
cd "$(dirname "$0")" || exit 1
export CARGO_NET_OFFLINE=true
CARGO_TARGET_DIR="$PWD/.build/extract" RUSTFLAGS="-Awarnings" cargo build --offline -q --manifest-path extract/Cargo.toml || exit 1
(cd "${PLUSENDI_REPO:-/repo}" && RUSTC_BOOTSTRAP=1 CARGO_TARGET_DIR="$OLDPWD/.build/expand" cargo rustc --offline --locked --lib -q -- -Zunpretty=expanded -Awarnings >/dev/null 2>&1) || true
verus --version >/dev/null || exit 1
exit 0
