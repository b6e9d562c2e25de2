#!/bin/bash
# cwd: the repository. 0: the demonstration passes, otherwise it fails
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin:$PATH
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu RUSTFLAGS= RUST_BACKTRACE=0
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET
dir=$(mktemp -d "${TMPDIR:-/tmp}/demo.XXXXXX") || exit 2
mkdir "$dir/src"
cp "$here/main.rs" "$here/kit.rs" "$dir/src/" || exit 2
cp "$here/lock.txt" "$dir/Cargo.lock" || exit 2
cat > "$dir/Cargo.toml" <<X
[package]
name = "demo"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
ucan = { path = "$repo/ucan" }
ucan-key-support = { path = "$repo/ucan-key-support" }
anyhow = "1.0"
async-trait = "0.1"
base64 = "0.21"
bs58 = "0.5"
cid = "0.10"
ed25519-zebra = "3.1"
futures = "0.3"
libipld-core = { version = "0.16", features = ["serde-codec", "serde"] }
p256 = "0.13"
rsa = "0.9"
serde = { version = "1.0", features = ["derive"] }
serde_ipld_dagcbor = "0.3"
serde_json = "1.0"
url = "2.0"
[profile.dev]
debug = 0
[profile.dev.package."*"]
opt-level = 1
X
cd "$dir" && cargo build -q --offline 2>"$dir/build.log"
rc=$?
if [ $rc -ne 0 ]; then tail -20 "$dir/build.log"; rm -rf "$dir"; exit 3; fi
timeout 200 "$dir/target/debug/demo"
rc=$?
rm -rf "$dir"
exit $rc
