#!/bin/bash
# check.sh PROPERTY [quick|thorough]   decide a property
# check.sh replay FILE                 reproduce a recorded violation
# check.sh log PROPERTY SEED N [K]     event-log digests of N runs
# check.sh build                       only build
cd "$(dirname "$0")" || exit 2
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=1.90.0 CARGO_TERM_COLOR=never
unset DMISIM_NO_STD_BROKEN RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET RUSTC_WRAPPER RUSTC_WORKSPACE_WRAPPER
build() {
    (cd sim && cargo build --offline --quiet "$@") >sim/build.log 2>&1 || { cat sim/build.log >&2; echo "BUILD FAILED" >&2; exit 2; }
}
export DMISIM_CHECKED="$PWD/sim/target/debug/dmisim"
case "$1" in
C01 | C02 | C16 | build | replay)
    if ! (cd sim && cargo build --offline --quiet --release --no-default-features) >sim/build.log 2>&1; then
        # With the standard-library option off nothing works; the other half is still worth searching.
        export DMISIM_NO_STD_BROKEN="$(grep -m1 '^error' sim/build.log)"
        build --release
    fi
    export DMISIM_PLAIN="$PWD/sim/target/release/dmisim" ;;
esac
case "$1" in
C14 | build | replay)
    RUSTC_WRAPPER="$PWD/sim/wrap.sh" build --target-dir target/fine
    export DMISIM_FINE="$PWD/sim/target/fine/debug/dmisim" ;;
esac
build
case "$1" in
build) exit 0 ;;
replay) exec "$DMISIM_CHECKED" replay "$2" ;;
log) shift; exec "$DMISIM_CHECKED" log "$@" ;;
*) exec "$DMISIM_CHECKED" check "$1" "${2:-${VERIF_TIER:-quick}}" ;;
esac
