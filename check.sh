#!/bin/bash
# check.sh <property> [quick|thorough] : rebuild from /repo's working tree and run one check.
cd "$(dirname "$0")" || exit 2
id="$1"; tier="${2:-${VERIF_TIER:-quick}}"
export VERIF_ROOT="$PWD"
case "$id" in
  C19|C20|C21|C27) h=harness_eval ;;
  *) h=harness ;;
esac
./build.sh "$h" || { echo "check $id: the harness did not build" >&2; exit 2; }
rm -f "$VERIF_ROOT/evidence/$id.json"
"$VERIF_ROOT/$h/target/release/mc" "$id" "$tier"
