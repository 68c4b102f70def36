#!/bin/bash
# check.sh PROPERTY | setup: builds the explorer from /repo's working tree and decides one property.
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: no answer.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
root=$PWD
export CARGO_NET_OFFLINE=true
unset CARGO_TARGET_DIR CARGO_BUILD_TARGET CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_RUSTFLAGS
log=$(mktemp) || exit 2
trap 'rm -f "$log"' EXIT

build() { # toolchain, flags, target directory, features
    (cd harness && RUSTUP_TOOLCHAIN=$1 RUSTFLAGS=$2 cargo build --release --offline --target-dir "$3" ${4:+--features "$4"}) >"$log" 2>&1
}
stable() {
    build stable "--cfg eastl_rs_verif" target hooks && { bin=$root/harness/target/release/mc; return 0; }
    cp "$log" "$log.hooks"
    # without the private parts most can still be decided
    if build stable "" target-plain ""; then
        bin=$root/harness/target-plain/release/mc
        echo "note: the build with the hooks failed; the fixed pools and maps are left out" >&2
        rm -f "$log.hooks"
        return 0
    fi
    grep -A12 '^error' "$log.hooks" | head -60 >&2
    rm -f "$log.hooks"
    return 1
}
nightly() {
    build nightly "" target-nightly nightly && export MC_NIGHTLY_BIN=$root/harness/target-nightly/release/mc
}

case $1 in
setup)
    stable || exit 2
    nightly || echo "note: the nightly build failed" >&2
    exit 0
    ;;
C[0-9][0-9])
    stable || { echo "the explorer does not build" >&2; exit 2; }
    case $1 in C16 | C20 | C21 | C24) nightly || echo "note: the nightly build failed" >&2 ;; esac
    export MC_ROOT=${MC_ROOT:-$root}
    rm -f "$log"
    exec "$bin" check "$1"
    ;;
*)
    echo "usage: check.sh PROPERTY|setup" >&2
    exit 2
    ;;
esac
