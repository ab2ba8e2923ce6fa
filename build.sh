#!/bin/bash
# Builds the model checker against /repo's current working tree, offline.
export HOME=${HOME:-/root} PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
cd "$(dirname "$(readlink -f "$0")")/mc" || exit 3
mkdir -p target
exec 9> target/.lock; flock 9
# cargo goes by modification times; what counts is the content
H=$(cd /repo && find src erreur Cargo.toml Cargo.lock -type f -not -path '*/target/*' -print0 2>/dev/null | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
H="$H $(find src shim.c shim.h build.rs Cargo.toml Cargo.lock vendor -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)"
if [ "$(cat target/.tree 2>/dev/null)" != "$H" ]; then
    rm -f target/.tree
    cargo clean --offline -q -p artefacta -p erreur -p mc 2>/dev/null
fi
if ! [ -f target/.tree ] || ! [ -x target/debug/mc ]; then
    cargo build --offline --locked -q > target/build.log 2>&1 || { grep -A12 "^error" target/build.log | head -60 >&2; exit 3; }
    echo "$H" > target/.tree
fi
