#!/bin/bash
# Builds the simulation from the current working tree of /repo and runs one check.
#   check.sh PROPERTY            explores (VERIF_SEED, VERIF_TIER)
#   check.sh replay FILE         reproduces a recorded violation
#   check.sh build               only builds
set -u
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here" || exit 2
target="$here/harness/target"
mkdir -p "$target" || exit 2
(
    flock 9
    # times of files are not trusted, cargo must see changes of content
    sum="$(cd /repo && find src Cargo.toml -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sha256sum)"
    if [ "$(cat "$target/tree.sum" 2>/dev/null)" != "$sum" ]; then
        cargo clean --release --offline --manifest-path harness/Cargo.toml -p bumaga >/dev/null 2>&1
    fi
    if ! CARGO_TARGET_DIR="$target" cargo build --release --offline --manifest-path harness/Cargo.toml >"$target/build.log" 2>&1; then
        cat "$target/build.log" >&2
        exit 2
    fi
    echo "$sum" >"$target/tree.sum"
) 9>"$target/build.lock" || exit 2
export SIMCHECK_ROOT="$here"
case "$1" in
    build) exit 0 ;;
    replay) exec "$target/release/simcheck" replay "$2" ;;
    *) exec "$target/release/simcheck" check "$1" ;;
esac
