# Build environment of the checks (same toolchain as /opt/vp/env.sh).
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=1.88.0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS
export RUSTC_WRAPPER=/verif/harness/rustc-wrapper.sh
export CARGO_TARGET_DIR=/verif/target
