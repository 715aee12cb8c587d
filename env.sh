# Sourced by setup.sh and the checks.
export HOME=${HOME:-/root} LANG=C.UTF-8 LC_ALL=C.UTF-8
export PATH=/root/.cargo/bin:$PATH
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_TARGET_DIR=/verif/target
export HODU_DISABLE_NATIVE=1
export CC="ccache cc" CCACHE_DIR=/verif/.ccache CCACHE_COMPILERCHECK=content
export OPENBLAS_NUM_THREADS=1
