#!/bin/bash
# Builds every harness binary once, so that the checks only rebuild what changed.
HERE=$(cd "$(dirname "$0")" && pwd)
rc=0
"$HERE/build.sh" map map >/dev/null || rc=1
"$HERE/build.sh" map map plain >/dev/null || rc=1
"$HERE/build.sh" map map traced >/dev/null || rc=1
for f in "$HERE"/parts/src/bin/*.rs; do
    [ -e "$f" ] || continue
    "$HERE/build.sh" parts "$(basename "$f" .rs)" >/dev/null || rc=1
done
"$HERE/build.sh" repo analyze_runs >/dev/null || rc=1
"$HERE/build.sh" mem mem >/dev/null || rc=1
"$HERE/build.sh" mem mem native >/dev/null || rc=1
exit $rc
