#!/bin/bash
# run.sh build            build the harness and the program from /repo's working tree
# run.sh check ID TIER    the same, then decide property ID
export HOME=/root CARGO_HOME=/root/.cargo RUSTUP_HOME="${RUSTUP_HOME:-/root/.rustup}"
export RUSTUP_TOOLCHAIN=stable-x86_64-unknown-linux-gnu
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_BUILD_TARGET
root=$(cd "$(dirname "$0")" && pwd)
export VERIF_ROOT=$root
target=$root/target

inputs() {
    (cd /repo && find . \( -path ./.git -o -path ./target -o -name '*_syntax.rs' \) -prune -o -type f \
        \( -name '*.rs' -o -name '*.lalrpop' -o -name '*.toml' \) -print0 | LC_ALL=C sort -z | xargs -0 sha256sum)
}

build() {
    mkdir -p "$target"
    exec 9>"$target/.lock"
    flock 9
    local now
    now=$(inputs)
    if [ ! -f "$target/.stamp" ] || [ "$now" != "$(cat "$target/.stamp")" ]; then
        # cargo goes by times and lalrpop by a hash of the grammar: forget what they know of this package
        rm -f "$target/.stamp"
        rm -rf "$target"/debug/.fingerprint/luafmt-*
        local g
        for g in /repo/src/parser/*.lalrpop; do rm -f "${g%.lalrpop}.rs"; done
    fi
    local d
    for d in harness cli; do
        (cd "$root/$d" && cargo build --quiet --offline --locked --target-dir "$target") >"$target/.log" 2>&1 || {
            cat "$target/.log"
            echo "build of $d failed"
            exit 2
        }
    done
    echo "$now" >"$target/.stamp"
    flock -u 9
    exec 9>&-
}

case "$1" in
build) build ;;
check)
    build
    mkdir -p "$root/evidence" "$root/out"
    exec "$target/debug/luamon" check "$2" "$3"
    ;;
*)
    echo "usage: run.sh build | check ID quick|thorough"
    exit 2
    ;;
esac
