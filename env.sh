# Build environment of the checks; sourced with the directory of /verif in $VERIF.
export HOME=/root PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_TARGET_DIR=$VERIF/target RUSTFLAGS="--cap-lints=allow"
unset RUSTDOCFLAGS CARGO_INCREMENTAL CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS
