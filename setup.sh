#!/bin/bash
# Builds every harness once so that the checks only recompile what changed.
cd "$(dirname "$0")" || exit 3
. ./env.sh
rc=0
for m in h_*/Cargo.toml; do
  cargo build --offline --quiet --manifest-path "$m" || rc=1
done
exit $rc
