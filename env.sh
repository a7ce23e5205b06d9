export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.70.0 CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=/verif/target
unset RUSTFLAGS RUSTC_WRAPPER RUST_LOG CARGO_INCREMENTAL
