#!/bin/bash
# check.sh ID quick|thorough    decide one property against /repo's working tree
# check.sh replay FILE          run one saved failure again
# check.sh setup                build only
export PATH=/root/.cargo/bin:/usr/local/bin:/usr/bin:/bin
export RUSTUP_TOOLCHAIN=${RUSTUP_TOOLCHAIN:-stable-x86_64-unknown-linux-gnu}
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER= RUSTFLAGS=
unset CARGO_TARGET_DIR
VERIF_DIR=$(cd "$(dirname "$0")" && pwd) || exit 2
export VERIF_DIR
cd "$VERIF_DIR/harness" || exit 2
build() {
	cargo build --quiet --offline --locked "$@" 2>build.log
}
need_walk=no
[ "$1" = P16 ] && need_walk=yes
[ "$1" = replay ] && grep -q '^property=P16' "$2" 2>/dev/null && need_walk=yes
[ "$1" = setup ] && need_walk=yes
if [ $need_walk = yes ] && build --features walk; then
	:
elif ! build; then
	cat build.log >&2
	echo "the harness or /repo does not build" >&2
	exit 2
fi
bin=target/debug/sqlcheck
case "$1" in
setup) exit 0 ;;
replay) exec "$bin" replay "$2" ;;
*) exec "$bin" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
