. ./vx/build.sh
FINE="/tracer,/tracer/sequence" HOOK="" PKGS="github.com/barnex/bruteray/tracer/... github.com/barnex/bruteray/api"
if vx_build; then
	cd "$WORK" && ./check-race >"$WORK/out" 2>"$WORK/err"
	rc=$?
else
	echo "BUILD FAILED" | tee "$WORK/out"; : >"$WORK/err"; rc=2
fi
