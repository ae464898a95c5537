# Build environment of the checks: same toolchain as the repository, own target directory.
export HOME=/root
export PATH="/root/.cargo/bin:/usr/local/cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-2024-09-24
export CARGO_NET_OFFLINE=true
export CARGO_INCREMENTAL=1
export CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=/verif/target
export RUSTC_WRAPPER=
export RUST_LOG=off
unset CARGO_BUILD_TARGET
export RUSTFLAGS="--cfg verif_hooks"
