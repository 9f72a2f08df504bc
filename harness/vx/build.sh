# Sourced by cmd/<ID>/run.sh of the concurrency checks: builds $WORK/check-race
# (and $WORK/check) from /repo's working tree, instrumented for controlled
# scheduling; falls back to less instrumentation if the code does not build with it.
# $FINE: packages with statement-level scheduling points. $HOOK: -http or empty.
vx_build() {
	go build -o "$WORK/instr" ./instr || return 1
	local mode args
	for mode in full norw sync none; do
		case $mode in
		full) args="-fine $FINE $HOOK" ;;
		norw) args="-fine $FINE -rmw=false $HOOK" ;;
		sync) args="-fine , $HOOK" ;;
		none) args="-fine none $HOOK" ;;
		esac
		rm -rf "$WORK/ov"
		if [ $mode = none ]; then
			"$WORK/instr" -only-http -out "$WORK/ov" $HOOK || return 1
		else
			"$WORK/instr" -out "$WORK/ov" $args $PKGS 2>>"$WORK/build.err" || continue
		fi
		if go build -race -tags verifhook -overlay "$WORK/ov/overlay.json" -o "$WORK/check-race" "./cmd/$ID" 2>>"$WORK/build.err"; then
			export VX_INSTR=$mode
			cp "$WORK/ov/sites.txt" "$WORK/sites.txt" 2>/dev/null
			return 0
		fi
	done
	cat "$WORK/build.err"
	return 1
}
