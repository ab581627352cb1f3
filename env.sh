export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable RUSTC_WRAPPER= CARGO_TERM_COLOR=never CARGO_INCREMENTAL=0
export RUSTFLAGS="--cfg redox_ecc_verif -Awarnings"
[ -d /root/.cargo/bin ] && export PATH="/root/.cargo/bin:$PATH"
