#!/bin/bash
# check.sh <property> <quick|thorough>: build the harness against /repo's working tree and run one check.
# check.sh --build: only build.   check.sh --replay <file>: replay one recorded violation.
set -u
V=$(cd "$(dirname "$0")" && pwd)
export CARGO_HOME="${CARGO_HOME:-/root/.cargo}" RUSTUP_HOME="${RUSTUP_HOME:-/root/.rustup}"
export PATH="$CARGO_HOME/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true RUSTC_WRAPPER= CARGO_TERM_COLOR=never
export CARGO_TARGET_DIR="$V/mc/target" MC_ROOT="$V"
unset CARGO_INCREMENTAL RUSTFLAGS
# P22 includes the parser's optional onig feature (named captures); all other checks run without it.
case "${1:-}" in
    P22) FEAT="onig" ;;
    --replay) case "$(basename "$2")" in P22-*) FEAT="onig" ;; *) FEAT="" ;; esac ;;
    --build) FEAT="" ; "$0" --build-onig || exit 2 ;;
    --build-onig) FEAT="onig" ;;
    *) FEAT="" ;;
esac
[ -n "$FEAT" ] && CARGO_TARGET_DIR="$V/mc/target/onig"
mkdir -p "$V/mc/target" "$V/evidence" "$V/replays"
(
    flock 9
    cd /repo || exit 2
    [ -e Cargo.lock ] || cp /opt/vp/Cargo.lock Cargo.lock
    for f in src/tests/lexer/gen.rs src/tests/parser/gen.rs; do
        [ -e "$f" ] || : > "$f"
    done
    # src/parser/parse.rs and src/reserved_words/list.rs are generated (and git-ignored); regenerate
    # them whenever they or what they come from differ from what our last good build left.
    state="$V/mc/target/codegen.sha256"
    hash() { sha256sum src/parser/parse.y src/parser/parse.rs src/reserved_words/list.rs build.rs codegen/mod.rs codegen/*/*.rs 2>&1; }
    if [ "$(hash)" != "$(cat "$state" 2>/dev/null)" ]; then
        rm -f "$state" src/parser/parse.rs src/reserved_words/list.rs
        touch src/parser/parse.y
    fi
    log="$V/mc/target/build.log"
    if ! cargo build --release --offline --locked --manifest-path "$V/mc/Cargo.toml" --features "$FEAT" > "$log" 2>&1; then
        tail -n 40 "$log"
        echo "build failed" >&2
        exit 2
    fi
    hash > "$state"
) 9> "$V/mc/target/.lock" || exit 2
case "${1:-}" in
    --build | --build-onig) exit 0 ;;
    --replay) exec "$CARGO_TARGET_DIR/release/mc" replay "$2" ;;
esac
exec "$CARGO_TARGET_DIR/release/mc" check "$1" "${2:-quick}"
