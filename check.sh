#!/bin/bash
# ./check.sh ID [thorough] build the monitor from /repo's working tree and run one property's check
# ./check.sh replay FILE  run a recorded episode again, operation by operation
# ./check.sh build        build only
# Exit 0: held on everything observed. Exit 1 and a VIOLATION line: broken. Anything else: no verdict.
set -u
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} VERIF_ROOT=$here
export PATH=/root/.cargo/bin:/opt/soroban/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export RUSTUP_TOOLCHAIN=1.79.0-x86_64-unknown-linux-gnu CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTC_WRAPPER=
export CARGO_INCREMENTAL=0 CARGO_PROFILE_DEV_DEBUG=line-tables-only
unset RUSTFLAGS
export CARGO_TARGET_DIR=$here/harness/target
mkdir -p "$CARGO_TARGET_DIR"
log=$CARGO_TARGET_DIR/build.log

build() {
    # The contracts import one another's wasm for its interface: build it where it is not there.
    local w=/repo/target/wasm32-unknown-unknown f
    for f in release/emitter release/pool_factory release/backstop release/pool \
             optimized/emitter optimized/pool_factory optimized/backstop optimized/pool; do
        if [ ! -s "$w/$f.wasm" ]; then
            (unset CARGO_TARGET_DIR CARGO_INCREMENTAL; . /opt/vp/env.sh && build_wasm) >"$log" 2>&1 || return 1
            break
        fi
    done
    # Start from the repository's build of the crates from the registry, if there is one, but from none of its own.
    if [ ! -d "$CARGO_TARGET_DIR/debug/deps" ] && [ -d /repo/target/debug/deps ]; then
        mkdir -p "$CARGO_TARGET_DIR/debug/deps"
        cp -a /repo/target/debug/.fingerprint /repo/target/debug/build "$CARGO_TARGET_DIR/debug/"
        (cd /repo/target/debug/deps && find . -maxdepth 1 -type f \( -name '*.rlib' -o -name '*.rmeta' -o -name '*.so' -o -name '*.d' \) -print0 |
            xargs -0 cp -a -t "$CARGO_TARGET_DIR/debug/deps")
        for f in pool backstop emitter pool-factory mock-pool-factory blend-contract-sdk moderc3156 test-suites; do
            rm -rf "$CARGO_TARGET_DIR/debug/.fingerprint/$f"-????????????????
        done
    fi
    # Cargo goes by dates; make sure that contracts with other contents are built anew whatever their dates are.
    local sum
    sum=$(cd /repo && find . -name target -prune -o -name .git -prune -o -type f \( -name '*.rs' -o -name '*.toml' -o -name '*.lock' -o -name '*.wasm' \) -print0 |
        sort -z | xargs -0 sha256sum | sha256sum)
    if [ "$sum" != "$(cat "$CARGO_TARGET_DIR/sources.sha" 2>/dev/null)" ]; then
        for f in pool backstop emitter pool-factory; do
            rm -rf "$CARGO_TARGET_DIR/debug/.fingerprint/$f"-???????????????? \
                "$CARGO_TARGET_DIR"/wasm/wasm32-unknown-unknown/release/.fingerprint/"$f"-????????????????
        done
    fi
    cargo build --manifest-path "$here/harness/Cargo.toml" --offline --locked >>"$log" 2>&1 || return 1
    # Some episodes run the contracts as wasm, and the factory deploys the pool's.
    for f in pool backstop emitter; do
        CARGO_TARGET_DIR=$CARGO_TARGET_DIR/wasm cargo rustc --manifest-path=/repo/$f/Cargo.toml --crate-type=cdylib \
            --target=wasm32-unknown-unknown --release --locked --offline >>"$log" 2>&1 || return 1
    done
    echo "$sum" >"$CARGO_TARGET_DIR/sources.sha"
}

: >"$log"
[ "${2:-}" = thorough ] && export VERIF_TIER=thorough
export BLEND_WASM=$CARGO_TARGET_DIR/wasm/wasm32-unknown-unknown/release
if ! build; then
    tail -40 "$log" >&2
    echo "inconclusive: the build failed" >&2
    exit 4
fi
bin=$CARGO_TARGET_DIR/debug/blend-monitor
case ${1:-} in
    build) exit 0 ;;
    replay) exec "$bin" replay "$2" ;;
    C[0-9][0-9]) cd "$here" && exec "$bin" check "$1" ;;
    *) echo "usage: $0 ID [thorough] | replay FILE | build" >&2; exit 2 ;;
esac
