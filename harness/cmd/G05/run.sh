. ./vx/build.sh
FINE="/tracer,/tracer/cameras,/tracer/lights,/tracer/materials,/tracer/media,/tracer/objects,/tracer/sequence,/texture,/tracer/test" HOOK="" PKGS="github.com/barnex/bruteray/tracer/... github.com/barnex/bruteray/api"
if vx_build; then
	cd "$WORK" && ./check-race >"$WORK/out" 2>"$WORK/err"
	rc=$?
else
	echo "BUILD FAILED" | tee "$WORK/out"; : >"$WORK/err"; rc=2
fi
