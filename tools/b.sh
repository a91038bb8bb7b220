#!/bin/sh
# build the harness (also the manifest's setup command)
cd "$(dirname "$0")/../harness" && CARGO_TARGET_DIR="$PWD/../.build/target" RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true cargo build --offline -q 2>&1 | grep -E "^error" -A14 | head -${1:-80}
