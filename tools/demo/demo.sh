#!/bin/bash
# run with cwd = the repository; exit 0 if the property's behaviour is there
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/usr/local/bin:/usr/bin:/bin:/root/.cargo/bin:$PATH
export RUSTUP_HOME=${RUSTUP_HOME:-/root/.rustup} CARGO_HOME=${CARGO_HOME:-/root/.cargo}
P=$RUSTUP_HOME/toolchains/nightly-2022-11-21-x86_64-unknown-linux-gnu/bin
export RUSTUP_TOOLCHAIN=nightly-2023-06-20 RUSTC=$P/rustc RUSTDOC=$P/rustdoc RUSTC_WORKSPACE_WRAPPER= RUSTC_WRAPPER= CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTFLAGS CARGO_BUILD_RUSTFLAGS CARGO_TARGET_DIR SPDM_CONFIG
w=$(mktemp -d /tmp/demo.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir "$w/src"
cp "$here"/src/*.rs "$w/src/"
cp "$here/Cargo.lock" "$w/"
sed "s#@REPO@#$repo#" "$here/Cargo.toml.in" > "$w/Cargo.toml"
cd "$w" || exit 2
for f in $(cat "$here/features"); do
  cargo build -q --offline --no-default-features --features "$f" 2> "$w/log" || { tail -40 "$w/log"; echo "demo does not build"; exit 2; }
  ./target/debug/demo || exit 1
done
echo "demo: as it should be"
