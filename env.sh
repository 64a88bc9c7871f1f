export PATH=/root/.cargo/bin:$PATH
export HOME=/root
export RUSTUP_TOOLCHAIN=1.85.1-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never
unset RUSTC_WRAPPER CARGO_INCREMENTAL CARGO_PROFILE_DEV_DEBUG
export CARGO_TARGET_DIR=/verif/target
# aHash then mixes only the harness's own (seeded) random source into its keys: hash iteration order becomes an input
export RUSTFLAGS="--cfg fuzzing"
