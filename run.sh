#!/bin/bash
# run.sh <ID>            runs the check of property <ID> (VERIF_SEED, VERIF_TIER)
# run.sh replay <file>   runs one recorded case
# run.sh build           builds only
# Exit 0: the property held on everything explored. Exit 1: a VIOLATION line. 2: the check itself failed.
cd "$(dirname "$0")" || exit 2
VERIF_ROOT=$PWD; export VERIF_ROOT
unset RUSTFLAGS CARGO_TARGET_DIR CARGO_ENCODED_RUSTFLAGS CARGO_BUILD_TARGET RUSTC_WRAPPER CARGO_INCREMENTAL
export CARGO_NET_OFFLINE=true CARGO_TERM_COLOR=never RUSTUP_TOOLCHAIN="${VERIF_TOOLCHAIN:-stable}"
build() { # features flags target
    local target=harness/target/$3 hash
    mkdir -p "$target"
    # cargo looks at modification times only, so note the content too
    hash=$( (find /repo/kzg /repo/plonk /repo/fri /repo/nova -path '*/target' -prune -o -type f \( -name '*.rs' -o -name Cargo.toml \) -print0 | sort -z | xargs -0 sha256sum; find harness/src harness/Cargo.toml harness/Cargo.lock -type f -print0 | sort -z | xargs -0 sha256sum) | sha256sum)
    if [ "$(cat "$target/.content" 2>/dev/null)" != "$hash" ]; then
        rm -f "$target/.content"
        RUSTFLAGS="$2" cargo clean --release --offline --locked --manifest-path harness/Cargo.toml --target-dir "$target" -p kzg -p plonk -p fri -p nova -p zkp-verif >/dev/null 2>&1
        RUSTFLAGS="$2" cargo build --release --offline --locked --manifest-path harness/Cargo.toml --target-dir "$target" $1 >"$target/build.log" 2>&1 || return 1
        echo "$hash" >"$target/.content"
    fi
    BIN=$target/release/zkp-verif
    [ -x "$BIN" ]
}
mkdir -p harness/target
exec 9>harness/target/.lock
flock 9
if ! build "--features hooks" "--cfg zkp_verif" hooked; then
    # without the hooks, in case they are not in this tree
    if ! build "" "" plain; then
        echo "the harness does not build against /repo:"
        tail -40 harness/target/hooked/build.log
        exit 2
    fi
fi
flock -u 9
exec 9>&-
case "$1" in
    build) exit 0 ;;
    replay) exec "$BIN" replay "$2" ;;
    *) exec "$BIN" run "$1" ;;
esac
