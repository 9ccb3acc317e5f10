#!/bin/bash
# replay.sh FILE: runs one replay file again (1 and a VIOLATION line if it still fails).
. "$(dirname "$0")/env.sh"
build >&2 || exit 2
"$VERIF/harness/target/release/jstcheck" replay "$1" || exit $?
grep -q '"property": "C12"' "$1" || exit 0
build oniguruma >&2 || exit 2
"$VERIF/harness/target-onig/release/jstcheck" replay "$1"
