# toolchain environment shared by every check
export HOME=${HOME:-/root}
export PATH=/root/.cargo/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.70.0
export CARGO_NET_OFFLINE=true
export CARGO_TERM_COLOR=never
export RUSTFLAGS="--cfg halo2_verif -Awarnings"
VERIF_DIR="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"; export VERIF_DIR
export CARGO_TARGET_DIR="$VERIF_DIR/target"
unset RUSTC RUSTC_WRAPPER CARGO_INCREMENTAL
