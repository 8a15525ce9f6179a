#!/bin/bash
# check.sh <property> [quick|thorough]   build from /repo's working tree and decide one property
# check.sh replay <file>                 re-run a replay file
# check.sh build                         only build
# exit 0: held; 1: VIOLATION printed; 2: no answer (build failure, harness error, timeout)
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
export VERIF_HOME="$HERE"
export CARGO_TARGET_DIR="$HERE/target"
export CARGO_NET_OFFLINE=true
export SCARLET_SRC=/repo/src
unset RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET

build() {
    mkdir -p "$CARGO_TARGET_DIR" "$HERE/evidence" "$HERE/out"
    # cargo judges freshness by modification times; judge by content as well
    local sum
    sum="$( { find /repo/src /repo/Cargo.toml "$HERE/harness/src" "$HERE/harness/cshim" "$HERE/harness/Cargo.toml" "$HERE/harness/build.rs" -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -d' ' -f1)"
    local stamp="$CARGO_TARGET_DIR/content.stamp"
    if [ ! -f "$stamp" ] || [ "$(cat "$stamp")" != "$sum" ] || [ ! -x "$CARGO_TARGET_DIR/release/scarlet-pbt" ]; then
        rm -f "$stamp"
        (cd "$HERE/harness" && cargo clean --release --offline -p scarlet -p scarlet-pbt >/dev/null 2>&1)
        if ! (cd "$HERE/harness" && cargo build --release --offline >"$CARGO_TARGET_DIR/build.log" 2>&1); then
            cat "$CARGO_TARGET_DIR/build.log" >&2
            echo "ERROR: the harness does not build against /repo" >&2
            exit 2
        fi
        echo "$sum" >"$stamp"
    fi
}

BIN="$CARGO_TARGET_DIR/release/scarlet-pbt"
case "${1:-}" in
build)
    build
    ;;
replay)
    build
    exec timeout 300 "$BIN" replay "$2"
    ;;
C[0-9][0-9])
    build
    export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
    export VERIF_SEED="${VERIF_SEED:-1}"
    if [ "$VERIF_TIER" = thorough ]; then LIMIT=7200; else LIMIT=850; fi
    timeout "$LIMIT" "$BIN" run "$1"
    rc=$?
    if [ $rc -ne 0 ] && [ $rc -ne 1 ]; then
        echo "ERROR: no answer for $1 (exit $rc)" >&2
        exit 2
    fi
    exit $rc
    ;;
*)
    echo "usage: check.sh <property> [quick|thorough] | replay <file> | build" >&2
    exit 2
    ;;
esac
