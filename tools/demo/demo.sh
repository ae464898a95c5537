#!/bin/bash
# Exit 0 if what data.json says holds of the crates in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
. /opt/vp/env.sh
dir=$(mktemp -d)
trap 'rm -rf -- "$dir"' EXIT
mkdir -p "$dir/src"
cp "$here/main.rs" "$dir/src/main.rs"
for l in /opt/vp/ws/Cargo.lock "$repo/Cargo.lock"; do [ -f "$l" ] && { cp "$l" "$dir/Cargo.lock"; break; }; done
cat > "$dir/Cargo.toml" <<T
[package]
name = "demonstration"
version = "0.1.0"
edition = "2021"
[workspace]
[dependencies]
evm_arithmetization = { path = "$repo/evm_arithmetization" }
trace_decoder = { path = "$repo/trace_decoder" }
plonky2 = "1.0.0"
ethereum-types = "0.14.1"
anyhow = "1"
serde = { version = "1", features = ["derive"] }
serde_json = "1"
[profile.dev]
opt-level = 2
debug = 0
debug-assertions = false
overflow-checks = false
T
export CARGO_TARGET_DIR=$dir/target CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_OPT_LEVEL=2 CARGO_PROFILE_DEV_DEBUG=0
grep -q '"advice":\[\[\|"memory":\[\[' "$here/data.json" && export RUSTFLAGS="--cfg verif_hooks --cfg hooks"
cd "$dir" && cargo build --offline >"$dir/build.log" 2>&1 || { tail -30 "$dir/build.log"; echo "the demonstration does not build"; exit 2; }
timeout 200 "$dir/target/debug/demonstration" "$here/data.json"
