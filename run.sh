#!/bin/bash
# run.sh ID | run.sh replay FILE | run.sh build      (cwd /verif; see MANIFEST.json)
set -e
cd "$(dirname "$0")"
export VERIF_ROOT="$PWD" HOME=/root TZ=UTC
[ -f "$HOME/.cargo/env" ] && . "$HOME/.cargo/env"
export PATH="$HOME/.cargo/bin:$PATH"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export RUSTFLAGS="-A warnings"
export CARGO_TARGET_DIR="$PWD/target"
python3 gen.py
build() {
    # mc: the in-scope modules; full: everything, against stand-ins for the two git dependencies
    cargo build --offline --locked -q --manifest-path "$1/Cargo.toml" || { echo "build of $1 failed" >&2; exit 2; }
}
case "$1" in
build) build mc; [ -f full/Cargo.toml ] && build full; exit 0 ;;
replay) p=$(python3 -c 'import json,sys; print(json.load(open(sys.argv[1]))["property"])' "$2") ;;
*) p=$1 ;;
esac
case "$p" in
C32|C33|C34|C36) build full; exec target/debug/mcfull "$@" ;;
*) build mc; exec target/debug/mc "$@" ;;
esac
