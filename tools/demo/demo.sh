#!/bin/bash
# Builds main.rs (next to this script) against the crate in the current directory and runs it:
# exit 0 if the demonstrated behaviour is right.  Works in a scratch directory of its own.
here=$(cd "$(dirname "$0")" && pwd) || exit 3
repo=$PWD
work=$(mktemp -d /tmp/rsasl-demo.XXXXXXXX) || exit 3
trap 'rm -rf "$work"' EXIT
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH
export RUSTUP_TOOLCHAIN=1.82.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_TARGET_DIR="$work/target"
unset RUSTFLAGS RUSTDOCFLAGS RUSTC_WRAPPER CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
mkdir "$work/src" && cp "$here"/*.rs "$work/src/" && cp "$repo/Cargo.lock" "$work/Cargo.lock" || exit 3
cat >"$work/Cargo.toml" <<TOML
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
rsasl = { path = "$repo", features = ["provider", "provider_base64", "testutils", "unstable_custom_mechanism"] }
sha1 = "0.10"
sha2 = "0.10"
hmac = "0.12"
libc = "0.2"
[profile.dev]
debug = 0
TOML
cd "$work" && timeout 280 cargo run --offline --quiet
