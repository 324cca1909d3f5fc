#!/bin/bash
# usage: check.sh <property> [--tier quick|thorough] [--replay FILE]
#        check.sh --setup            (builds everything, runs nothing)
# Builds the harness (and, for the command-line properties, the tools) from /repo's current tree, then
# explores. Exit 0: held on everything explored. Exit 1: VIOLATION line printed. Anything else: no answer.
ROOT=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh 2>/dev/null
export PATH="/root/.cargo/bin:$PATH" CARGO_NET_OFFLINE=true
export CARGO_TARGET_DIR="$ROOT/target" CARGO_INCREMENTAL=0 RUSTC_WRAPPER=
unset RUSTFLAGS
ID=$1; shift
mkdir -p "$CARGO_TARGET_DIR"
exec 9>"$CARGO_TARGET_DIR/.check-lock"; flock 9

hash=$( { cd /repo && find . -path ./target -prune -o -path ./.git -prune -o -type f -print0 | sort -z | xargs -0 sha256sum
          cd "$ROOT" && find mc -type f -print0 | sort -z | xargs -0 sha256sum; } | sha256sum | cut -c1-40 )

lib() {
    cd "$ROOT/mc" || exit 3
    # Cargo compares time stamps only; sources that changed with old time stamps must be rebuilt, too.
    if [ "$(cat "$CARGO_TARGET_DIR/.stamp-lib" 2>/dev/null)" != "$hash" ]; then
        cargo clean -q --offline --release -p rusty-chromaprint -p mc 2>/dev/null
    fi
    log=$(cargo build -q --offline --release 2>&1) || { echo "$log" >&2; echo "check.sh: the harness does not build" >&2; exit 3; }
    echo "$hash" > "$CARGO_TARGET_DIR/.stamp-lib"
}

tools() {
    cd /repo || exit 3
    # Own target directory: other profile settings. Overflow checks and assertions are on in the code under
    # test and off in its dependencies.
    export CARGO_TARGET_DIR="$ROOT/target/tools"
    mkdir -p "$CARGO_TARGET_DIR"
    if [ "$(cat "$CARGO_TARGET_DIR/.stamp" 2>/dev/null)" != "$hash" ]; then
        cargo clean -q --offline --release -p rusty-chromaprint -p fpcalc -p compare 2>/dev/null
    fi
    log=$(CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS=true CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS=true \
        cargo build -q --release --offline --locked -p fpcalc -p compare \
        --config 'profile.release.package."*".overflow-checks=false' \
        --config 'profile.release.package."*".debug-assertions=false' 2>&1) \
        || { echo "$log" >&2; echo "check.sh: the tools do not build" >&2; exit 3; }
    echo "$hash" > "$CARGO_TARGET_DIR/.stamp"
    export MC_TOOLS="$CARGO_TARGET_DIR/release"
    export CARGO_TARGET_DIR="$ROOT/target"
}

if [ "$ID" = --setup ]; then lib; tools; exit 0; fi
lib
case "$ID" in C18|C19|C20|C21|C22|C25|C26) tools;; esac
exec 9>&-
cd "$ROOT" || exit 3
exec "$ROOT/target/release/mc" "$ID" --root "$ROOT" "$@"
