#!/bin/bash
# run.sh PROPERTY [args of the explorer]: builds the explorer from /repo's
# working tree and decides one property. VERIF_TIER selects quick or thorough.
set -u
HERE="$(cd "$(dirname "$0")" && pwd)"
REPO="${VERIF_REPO:-/repo}"
PROP="$1"; shift
. /opt/vp/env.sh
export VERIF_SEED="${VERIF_SEED:-1}"
TIER="${VERIF_TIER:-quick}"
B="$HERE/.build/$PROP"
mkdir -p "$B" "$HERE/evidence" "$HERE/replays" || exit 3

# Importing the daemon itself pulls in all of lnd: only where it is needed.
TAGS=nolog
case "$PROP" in
C18|C23|C24|C25|C26|C28|C29) TAGS=nolog,daemon ;;
esac

build() {
	(cd "$HERE/mc/rewrite" && go build -o "$B/rewrite" .) || return 1
	(cd "$REPO" && "$B/rewrite" -repo "$REPO" -out "$B" \
		-rt "$HERE/mc/rt" -harness "$HERE/mc/harness") || return 1
	sed 's/^go 1\.1[0-9]$/go 1.20/' "$REPO/go.mod" >"$B/go.mod" || return 1
	cp "$REPO/go.sum" "$B/go.sum" || return 1
	(cd "$REPO" && go build -overlay "$B/overlay.json" \
		-modfile "$B/go.mod" -tags "$TAGS" -ldflags=-checklinkname=0 \
		-o "$B/mc" ./verifmc) || return 1
}
if ! build >"$B/build.log" 2>&1; then
	tail -30 "$B/build.log" >&2
	echo "build failed" >&2
	exit 3
fi
exec "$B/mc" -prop "$PROP" -tier "$TIER" -replays "$HERE/replays" \
	-known "$HERE/known_findings.json" \
	-evidence "$HERE/evidence/$PROP.json" "$@"
