# The watcher is built from /repo as a test binary that calls its main function.
REPO=$(go list -m -f '{{.Dir}}' github.com/barnex/bruteray) || { echo "BUILD FAILED"; exit 2; }
cp cmd/A04/watch/child_test.go.txt "$WORK/child_test.go"
echo "{\"Replace\":{\"$REPO/cmd/bruteray-watch/zz_verif_test.go\":\"$WORK/child_test.go\"}}" >"$WORK/overlay.json"
go test -c -vet=off -overlay "$WORK/overlay.json" -o "$WORK/watcher" github.com/barnex/bruteray/cmd/bruteray-watch &&
	go build -o "$WORK/check" "./cmd/$ID" || { echo "BUILD FAILED"; exit 2; }
cd "$WORK" && ./check "$WORK/watcher" "$WORK" >"$WORK/out" 2>"$WORK/err"
rc=$?
