#!/bin/bash
# Builds a small program against the contracts in the current directory and runs it: exit 0 = the property holds.
here="$(cd "$(dirname "$0")" && pwd)"; repo="$PWD"
d="$(mktemp -d /tmp/demo.XXXXXX)" || exit 3
trap 'rm -rf -- "$d"' EXIT
mkdir "$d/src" && cp "$here"/*.rs "$d/src/" && cp "$here/Cargo.lock" "$d/" && sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$d/Cargo.toml" || exit 3
export RUSTUP_TOOLCHAIN=stable CARGO_NET_OFFLINE=true CARGO_TARGET_DIR="$d/target"
cd "$d" && cargo build --offline -q 2>"$d/err" || { tail -30 "$d/err"; exit 3; }
timeout 60 "$d/target/debug/demo"
