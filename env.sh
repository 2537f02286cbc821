export HOME=/root
export PATH=/root/.cargo/bin:${PATH:-/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin}
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
export RUSTFLAGS="-C target-cpu=x86-64-v2 --cap-lints allow"
unset CARGO_TARGET_DIR CARGO_INCREMENTAL
