#!/bin/bash
# usage: check.sh PROPERTY [quick|thorough]
# Builds the analyser (from the vendored sources, offline) and decides one
# property on the current source of /repo.
here="$(cd "$(dirname "$0")" && pwd)"
id="${1:?usage: check.sh PROPERTY [quick|thorough]}"
tier="${2:-${VERIF_TIER:-quick}}"
for d in /opt/veriftools/go1.27.3/bin; do
  [ -x "$d/go" ] && export PATH="$d:$PATH"
done
stale() {
  [ -x "$here/bin/analyzer" ] || return 0
  [ -n "$(find "$here/analyzer" -newer "$here/bin/analyzer" -name '*.go' -print -quit)" ]
}
if stale; then
  bash "$here/build.sh" || { echo "$id: the analyser does not build"; exit 2; }
fi
exec "$here/bin/analyzer" -repo /repo -verif "$here" "$id" "$tier"
