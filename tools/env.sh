# Common build environment of all checks (sourced).
export HOME=${HOME:-/root}
export PATH="/root/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=nightly-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_INCREMENTAL=0 CARGO_TERM_COLOR=never RUSTC_WRAPPER=
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
export VERIF_ROOT=$VERIF
export CARGO_TARGET_DIR=$VERIF/target

# build CRATE: rebuild CRATE against the current working tree of /repo.
build() {
  ( cd "$VERIF/$1" &&
    cargo clean --offline -q -p genco -p genco-macros >/dev/null 2>&1
    cd "$VERIF/$1" && cargo build --offline -q 2>"$CARGO_TARGET_DIR/$1.log" ) || {
    echo "error: building $VERIF/$1 failed:"
    tail -n 60 "$CARGO_TARGET_DIR/$1.log"
    return 1
  }
}
