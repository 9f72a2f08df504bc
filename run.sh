#!/bin/bash
# run.sh <ID> <quick|thorough>: builds the check of property <ID> against /repo's
# working tree and runs it. Exit 0: held. Exit 1 + VIOLATION line: broken.
ID=$1
export VERIF_TIER="${2:-${VERIF_TIER:-quick}}"
export VERIF_SEED="${VERIF_SEED:-1}"
VERIF_DIR="$(cd "$(dirname "$0")" && pwd)"; export VERIF_DIR
export HOME="${HOME:-/root}" PATH="/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin:$PATH"
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOCACHE="${GOCACHE:-/root/.cache/go-build}"
mkdir -p "$VERIF_DIR/evidence/replay"
WORK="$(mktemp -d "${TMPDIR:-/tmp}/verif.$ID.XXXXXX")" || exit 2
trap 'rm -rf "$WORK"' EXIT
export VERIF_WORK="$WORK"
rm -f "$VERIF_DIR/evidence/$ID.json" "$VERIF_DIR/evidence/replay/$ID.json" "$VERIF_DIR/evidence/replay/$ID.log"
cd "$VERIF_DIR/harness" || exit 2
if [ -f "cmd/$ID/run.sh" ]; then
	. "cmd/$ID/run.sh"
else
	go build -o "$WORK/check" "./cmd/$ID" || { echo "BUILD FAILED"; exit 2; }
	cd "$WORK" && ./check >"$WORK/out" 2>"$WORK/err"
	rc=$?
fi
cat "$WORK/out"
if [ $rc -ne 0 ] && ! grep -q "^VIOLATION property=$ID " "$WORK/out"; then
	# The check process itself died. A Go crash (an unrecovered panic in a
	# goroutine of the code under test, a fatal runtime error, a stack
	# overflow) is a violation; anything else is an error of the check.
	tail -n 60 "$WORK/err" >&2
	if grep -qE '^(panic: |fatal error: |runtime: goroutine stack exceeds)' "$WORK/err"; then
		cp "$WORK/err" "$VERIF_DIR/evidence/replay/$ID.log"
		[ -f "$VERIF_DIR/evidence/$ID.json" ] || cat >"$VERIF_DIR/evidence/$ID.json" <<-J
		{"property":"$ID","tier":"$VERIF_TIER","seed":$VERIF_SEED,"level":"other","coverage":{"explanation":"the code under test crashed the whole process; see replay/$ID.log"},"wall_s":0,"violations":1}
		J
		echo "VIOLATION property=$ID replay=$VERIF_DIR/evidence/replay/$ID.log"
		exit 1
	fi
	exit 2
fi
[ -n "$VERIF_VERBOSE" ] && cat "$WORK/err" >&2
exit $rc
