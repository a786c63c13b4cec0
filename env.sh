export HOME=/root
export PATH=/root/.cargo/bin:/usr/local/cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=/verif/target
export RUSTFLAGS="--cfg louis_verif -Awarnings"
unset LOUIS_TABLE_PATH RUST_LOG LOUIS_TEST_FORWARD_ONLY
