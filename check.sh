#!/bin/bash
# usage: check.sh <property>|build [--tier quick|thorough]
# Builds the checker against /repo's working tree and runs one check.
set -u
VERIF=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} PATH=$PATH:/root/.cargo/bin
export VERIF_ROOT=$VERIF
# The same settings as /opt/vp/build.sh, so that the dependency builds in /repo/target are reused.
export CARGO_NET_OFFLINE=true RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_INCREMENTAL=1 CARGO_PROFILE_DEV_DEBUG=line-tables-only CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUST_LOG RUSTFLAGS CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET
export CARGO_TARGET_DIR=/repo/target
if ! { mkdir -p "$CARGO_TARGET_DIR" && [ -w "$CARGO_TARGET_DIR" ]; } 2>/dev/null; then
    export CARGO_TARGET_DIR=$VERIF/target
fi
prop=${1:?property}; shift
# Files embedded at compile time, and edits that keep a file's time stamp, are invisible to cargo:
# rebuild whenever the contents of the sources or assets differ from those last built here.
(
    flock 9
    now=$(find /repo/src /repo/assets /repo/Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)
    stamp=$CARGO_TARGET_DIR/mc-inputs.sha256
    if [ "$now" != "$(cat "$stamp" 2>/dev/null)" ]; then
        rm -f "$stamp"
        for d in "$CARGO_TARGET_DIR"/debug/.fingerprint/s2protocol-*; do
            [ -e "$d" ] && find "$d" -maxdepth 1 -type f -name 'dep-lib-*' -delete
        done
    fi
    cd "$VERIF/mc" && cargo build --offline --locked >"$CARGO_TARGET_DIR/mc-build.log" 2>&1 || { tail -n 60 "$CARGO_TARGET_DIR/mc-build.log" >&2; exit 4; }
    echo "$now" >"$stamp"
    exit 0
) 9>"$CARGO_TARGET_DIR/mc.lock" || { echo "check.sh: the checker does not build" >&2; exit 4; }
[ "$prop" = build ] && exit 0
cd "$VERIF" || exit 4
exec "$CARGO_TARGET_DIR/debug/mc" check "$prop" "$@"
