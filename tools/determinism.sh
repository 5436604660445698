#!/bin/bash
# Executes the same runs twice, in different processes and with other sizes of environment and heap,
# and compares the digests of everything that was displayed and reported.
#   tools/determinism.sh [FROM] [TO] [PROPERTY...]
set -u
here="$(cd "$(dirname "$0")/.." && pwd)"
from="${1:-0}"; to="${2:-200}"; shift; shift
properties="${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C21 C22 C23}"
"$here/check.sh" build || exit 2
bin="${SIMCHECK_BIN:-$here/harness/target/release/simcheck}"
scratch="$(mktemp -d)"
code=0
for p in $properties; do
    "$bin" traces "$p" "$from" "$to" >"$scratch/a" 2>/dev/null
    PADDING="$(head -c 5000 /dev/zero | tr '\0' x)" MALLOC_ARENA_MAX=1 MALLOC_TOP_PAD_=777216 \
        "$bin" traces "$p" "$from" "$to" >"$scratch/b" 2>/dev/null
    if [ -s "$scratch/a" ] && cmp -s "$scratch/a" "$scratch/b"; then
        echo "$p: $(wc -l <"$scratch/a") traces agree"
    else
        echo "$p: traces DIFFER"
        diff "$scratch/a" "$scratch/b" | head -4
        code=1
    fi
done
rm -f "$scratch/a" "$scratch/b"; rmdir "$scratch"
exit $code
