#!/bin/bash
# bash run.sh <harness crate> <property id>: builds the harness against /repo's
# working tree and runs one check. Any build failure is an error (exit 3).
cd "$(dirname "$0")" || exit 3
. ./env.sh
H=$1; ID=$2; shift 2
LOG=$(mktemp)
( flock 9; cargo build --offline --quiet --manifest-path "$H/Cargo.toml" >"$LOG" 2>&1 ) 9>"$CARGO_TARGET_DIR/.build.lock"
rc=$?
if [ $rc -ne 0 ]; then tail -n 60 "$LOG"; rm -f "$LOG"; echo "build of $H failed"; exit 3; fi
rm -f "$LOG"
"$CARGO_TARGET_DIR/debug/$H" "$ID" "$@"
rc=$?
case $rc in 0|1) exit $rc;; *) echo "check $ID ended with $rc"; exit 3;; esac
