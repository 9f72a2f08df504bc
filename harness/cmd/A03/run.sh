# The viewer is built from /repo as a test binary: shiny's screen driver is
# replaced by a stand-in, the rest is the real program.
REPO=$(go list -m -f '{{.Dir}}' github.com/barnex/bruteray) && S=$(go list -m -f '{{.Dir}}' golang.org/x/exp)/shiny/screen || { echo "BUILD FAILED"; exit 2; }
mkdir -p "$WORK/exp/shiny/driver" "$WORK/exp/shiny/screen"
cp "$S/screen.go" "$WORK/exp/shiny/screen/screen.go"
cp cmd/A03/view/driver.go.txt "$WORK/exp/shiny/driver/driver.go"
cp cmd/A03/view/child_test.go.txt "$WORK/child_test.go"
printf 'module golang.org/x/exp\n\ngo 1.12\n' >"$WORK/exp/go.mod"
cp go.sum "$WORK/go.sum"
{ cat go.mod; echo; echo "replace golang.org/x/exp => $WORK/exp"; } >"$WORK/go.mod"
echo "{\"Replace\":{\"$REPO/cmd/bruteray-view/zz_verif_test.go\":\"$WORK/child_test.go\"}}" >"$WORK/overlay.json"
go test -c -vet=off -modfile "$WORK/go.mod" -overlay "$WORK/overlay.json" -o "$WORK/viewer" github.com/barnex/bruteray/cmd/bruteray-view &&
	go build -o "$WORK/check" "./cmd/$ID" || { echo "BUILD FAILED"; exit 2; }
cd "$WORK" && ./check "$WORK/viewer" >"$WORK/out" 2>"$WORK/err"
rc=$?
