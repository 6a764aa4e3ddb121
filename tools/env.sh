# Offline toolchain settings (same toolchain as the repository's own build).
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable}
export CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR=/verif/target
export CARGO_TERM_COLOR=never
unset RUSTFLAGS RUSTC_WRAPPER
