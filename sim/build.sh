#!/bin/bash
# build.sh OUTDIR [REPO]: instruments REPO's working tree and builds OUTDIR/sim from it.
set -e
OUT=$1
REPO=${2:-/repo}
HERE=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off GO111MODULE=on
mkdir -p "$OUT"
# the project has no go.mod of its own; the build script of the sandbox puts one there (ignored by git)
[ -f "$REPO/go.mod" ] || cp "$HERE/gomod/go.mod" "$REPO/go.mod"
[ -f "$REPO/go.sum" ] || cp "$HERE/gomod/go.sum" "$REPO/go.sum"
cd "$HERE"
MOD=
if [ "$REPO" != /repo ]; then
    sed "s#=> /repo#=> $REPO#" go.mod > "$OUT/alt.mod"
    cp go.sum "$OUT/alt.sum"
    MOD="-modfile=$OUT/alt.mod"
fi
go build -o "$OUT/instrument" ./instrument
rm -rf "${OUT:?}/ov"
"$OUT/instrument" -repo "$REPO" -out "$OUT/ov" -tools "$HERE/tools"
# the site table joins the harness through the overlay as well
python3 - "$OUT/ov/overlay.json" "$HERE/harness/zz_sites.go" "$OUT/ov/zz_sites.go" <<'P'
import json, sys
o = json.load(open(sys.argv[1]))
o["Replace"][sys.argv[2]] = sys.argv[3]
json.dump(o, open(sys.argv[1], "w"), indent=1)
P
go build $MOD -overlay "$OUT/ov/overlay.json" -o "$OUT/sim" ./harness
