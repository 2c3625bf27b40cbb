#!/bin/bash
# Builds, from /repo's current working tree and into /verif/target: the harness (which links the three crates)
# and the make_pluralrules tool. build-messages.json names the libraries generated code is compiled against.
ROOT=$(cd "$(dirname "$0")" && pwd)
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0 RUSTC_WRAPPER= RUSTFLAGS=
export CARGO_TARGET_DIR=$ROOT/target
mkdir -p "$ROOT/target"
# Never trust time stamps for the code under test: always recompile it.
for p in intl_pluralrules cldr_pluralrules_parser make_pluralrules pv; do
  rm -rf "$ROOT"/target/release/.fingerprint/$p-* "$ROOT"/target/repo/debug/.fingerprint/$p-*
done
( cd "$ROOT/harness" && cargo build --offline --release --message-format=json >"$ROOT/target/build-messages.json" ) || exit 1
( cd /repo && CARGO_TARGET_DIR=$ROOT/target/repo CARGO_PROFILE_DEV_DEBUG=0 \
    cargo build --offline -q --manifest-path /repo/make_pluralrules/Cargo.toml --bin make_pluralrules ) || exit 1
