export RUSTUP_TOOLCHAIN=1.94 CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR=/verif/target
export RUSTFLAGS="--cfg tokio_unstable"
