#!/bin/bash
# Builds the harness against /repo's working tree.   usage: build.sh OUTFILE [go build flags]
set -e
here=$(cd "$(dirname "$0")" && pwd)
out=$1; shift
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
root=$(go env GOROOT)
w=$here/build/overlay
mkdir -p "$w"
python3 - "$root" "$w" "$here" <<'P'
import sys, os, json, hashlib
root, w, here = sys.argv[1:]
src = open(f"{root}/src/net/dial.go").read()
a = "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n"
b = "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n"
assert src.count(a) == 1 and src.count(b) == 1
src = src.replace(a, a + "\tif VerifDial != nil {\n\t\tif c, err, ok := VerifDial(ctx, d, network, address); ok {\n\t\t\treturn c, err\n\t\t}\n\t}\n")
src = src.replace(b, b + "\tif VerifListen != nil {\n\t\tif l, err, ok := VerifListen(ctx, network, address); ok {\n\t\t\treturn l, err\n\t\t}\n\t}\n")
src += """
// Hooks of the verification harness.
var VerifDial func(ctx context.Context, d *Dialer, network, address string) (Conn, error, bool)
var VerifListen func(ctx context.Context, network, address string) (Listener, error, bool)
"""
def put(name, text):
    p = f"{w}/{name}"
    if not os.path.exists(p) or open(p).read() != text:
        t = f"{p}.{os.getpid()}"
        open(t, "w").write(text); os.replace(t, p)
    return p
st = "package synctest\n\nimport \"internal/synctest\"\n\n// VerifRun runs f in a new bubble.\nfunc VerifRun(f func()) { synctest.Run(f) }\n"
put("overlay.json", json.dumps({"Replace": {
    f"{root}/src/net/dial.go": put("dial.go.txt", src),
    f"{root}/src/testing/synctest/verif.go": put("synctest.go.txt", st)}}))
P
cd "$here/harness"
cp go.mod "$w/go.mod.$$"; cp go.sum "$w/go.sum.$$"
mv "$w/go.mod.$$" "$w/harness.$$.mod"; mv "$w/go.sum.$$" "$w/harness.$$.sum"
# For development only: another tree instead of /repo.
[ -z "$VERIF_REPO" ] || sed -i "s|=> /repo|=> $VERIF_REPO|" "$w/harness.$$.mod"
trap 'rm -f "$w/harness.$$.mod" "$w/harness.$$.sum"' EXIT
go build -modfile "$w/harness.$$.mod" -overlay "$w/overlay.json" -o "$out" "$@" .
