# sourced: the toolchain /repo builds with, offline
export HOME=/root
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=1.82-x86_64-unknown-linux-gnu RUSTUP_AUTO_INSTALL=0
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= CARGO_INCREMENTAL=1
export CARGO_TARGET_DIR=/verif/.build/target
unset CARGO_PROFILE_DEV_DEBUG RUSTFLAGS
export INSTA_UPDATE=no
