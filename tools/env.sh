export RUSTUP_TOOLCHAIN=nightly-2025-12-04
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTC_WRAPPER=
unset RUSTFLAGS RUSTDOCFLAGS
