#!/bin/bash
# run.sh <property> [quick|thorough]: rebuild the checker against /repo's working tree and run one check.
set -u
HERE="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
ID="$1"
TIER="${2:-${VERIF_TIER:-quick}}"
. "$HERE/env.sh"
WORK="$(mktemp -d /tmp/mc-run.XXXXXXXX)" || exit 2
trap 'rm -rf "$WORK"' EXIT
cd "$HERE/mc" || exit 2
build() {
	if ! go build "$@" >"$WORK/build.log" 2>&1; then
		cat "$WORK/build.log" >&2
		return 1
	fi
}
case "$ID" in
C23 | C24 | C25)
	# Concurrent code: rewrite the packages for the scheduler and build with the result as an overlay.
	mkdir -p "$WORK/x"
	if build -o "$WORK/xform" ./xform && "$WORK/xform" -repo /repo -out "$WORK/x" pool rand &&
		build -overlay "$WORK/x/overlay.json" -o "$WORK/mc" ./conc; then
		:
	else
		echo "the sources could not be rewritten; schedules are not explored" >&2
		build -ldflags "-X main.instrumented=no" -o "$WORK/mc" ./conc || { echo "build failed" >&2; exit 2; }
	fi
	;;
*)
	build -o "$WORK/mc" . || { echo "build failed" >&2; exit 2; }
	;;
esac
"$WORK/mc" check -prop "$ID" -tier "$TIER" -verif "$HERE" -work "$WORK"
exit $?
