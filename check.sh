#!/bin/bash
# check.sh ID: decides one property on /repo's working tree.
# 0: held on everything explored, 1: violated, 2: no answer
. "$(dirname "$0")/env.sh"
id="$1"
mkdir -p "$VERIF/evidence"
out="$VERIF/evidence/$id.json"
limit=840
[ "$VERIF_TIER" = thorough ] && limit=14400
build >&2 || { echo "$id: the build failed" >&2; exit 2; }
run() { # run DIRECTORY
    timeout -k 5 $limit "$VERIF/harness/$1/release/jstcheck" run "$id" "$out"
    rc=$?
    [ $rc -gt 1 ] && rc=2
    return $rc
}
run target || exit $?
if [ "$id" = C12 ]; then
    # casing has a second implementation behind a feature
    build oniguruma >&2 || { echo "$id: the oniguruma build failed" >&2; exit 2; }
    cp "$out" "$out.default"
    JST_PREV="$out.default" run target-onig
    rc=$?
    rm -f "$out.default"
    exit $rc
fi
