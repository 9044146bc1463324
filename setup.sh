#!/bin/bash
# Build the harnesses once, so that the checks only rebuild what changed.
cd "$(dirname "$0")" || exit 1
for h in harness harness_eval; do [ -d $h ] && { ./build.sh $h || exit 1; }; done
exit 0
