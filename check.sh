#!/bin/bash
# Build the harness against the working tree of /repo and run one check:
#   check.sh ID quick|thorough
# Exit 0: held on everything observed; exit 1 with a VIOLATION line: broken;
# anything else: no verdict.
set -u
cd "$(dirname "$0")" || exit 3
VERIF_DIR=$(pwd)
export VERIF_DIR
id=${1:?property}
tier=${2:-${VERIF_TIER:-quick}}
. "$VERIF_DIR/build.sh" || exit 3
ulimit -n 65536 2>/dev/null || ulimit -n "$(ulimit -Hn)" 2>/dev/null
ulimit -c 0
limit=840
[ "$tier" = thorough ] && limit=7200
timeout -k 10 "$limit" "$CARGO_TARGET_DIR/debug/s3mon" "$id" "$tier"
rc=$?
# only 0, and 1 after a VIOLATION line, are verdicts
exit "$rc"
