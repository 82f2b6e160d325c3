#!/bin/bash
# Build the checkers once so that later builds only recompile what changed.
set -eu
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
. "$HERE/env.sh"
cd "$HERE/mc"
OUT="$(mktemp -d /tmp/mc-setup.XXXXXXXX)"
trap 'rm -rf "$OUT"' EXIT
go build -o "$OUT/mc" .
"$OUT/mc" list >/dev/null
go build -o "$OUT/xform" ./xform
"$OUT/xform" -repo /repo -out "$OUT" pool rand
go build -overlay "$OUT/overlay.json" -o "$OUT/conc" ./conc
"$OUT/conc" list >/dev/null
