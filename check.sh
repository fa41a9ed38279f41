#!/bin/bash
# check.sh <property> <quick|thorough>: decides one property from /repo's current source.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"
newer() { [ -n "$(find "$here/checker" -name '*.go' -newer "$here/bin/jtcheck" -print -quit)" ]; }
if [ ! -x "$here/bin/jtcheck" ] || newer; then
  bash "$here/build.sh" >&2 || { echo "cannot build the checker"; exit 2; }
fi
exec "$here/bin/jtcheck" -repo "${JT_REPO:-/repo}" -verif "$here" -property "$prop" -tier "$tier"
