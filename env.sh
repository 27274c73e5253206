# Sourced by every script here: the offline toolchain, as /opt/vp uses it.
export HOME=/root RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=1 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="-Awarnings --cfg snapsim"
