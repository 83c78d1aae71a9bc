#!/bin/bash
# Builds the simulator against /repo's working tree. Usage: build.sh [OUTDIR [plain|instrumented|both]]
# "instrumented" puts a scheduling point before every statement of the library
# (copies made by tools/instrument, /repo is not touched); OUTDIR/sim is then that build.
# "both" makes OUTDIR/sim plain and OUTDIR/simx instrumented.
set -e
export HOME=/root PATH=/opt/veriftools/go1.24.13/bin:$PATH
export GOROOT=/opt/veriftools/go1.24.13 GOTOOLCHAIN=local GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod \
    GOCACHE=${GOCACHE:-/root/.cache/go-build} GOWORK=off GOPROXY=off GOFLAGS=-mod=mod
HERE=$(cd "$(dirname "$0")" && pwd)
OUT=${1:-$HERE/bin}
WHAT=${2:-both}
REPO=${SIM_REPO:-/repo}
mkdir -p "$OUT/ov/v2"
# The library's randomness seam: the global generators of math/rand and
# math/rand/v2 ask the simulator instead of the runtime.
for v in "" v2/; do
  sed -e 's#^//go:linkname runtime_rand runtime.rand$##' \
      -e 's#^func runtime_rand() uint64$#// SimSource replaces the runtime random source.\nvar SimSource func() uint64\n\nfunc runtime_rand() uint64 {\n\tif SimSource != nil {\n\t\treturn SimSource()\n\t}\n\treturn 0x9e3779b97f4a7c15\n}#' \
      "$GOROOT/src/math/rand/${v}rand.go" > "$OUT/ov/${v}rand.go"
  grep -q SimSource "$OUT/ov/${v}rand.go"
done
cat >> "$OUT/ov/rand.go" <<EOF

// SimHook is called at every scheduling point of instrumented code.
var SimHook func(site, fn int)

// SimYield is a scheduling point; fn is the first one of the same function.
func SimYield(site, fn int) {
	if SimHook != nil {
		SimHook(site, fn)
	}
}
EOF
cat > "$OUT/overlay.json" <<EOF
{"Replace":{"$GOROOT/src/math/rand/rand.go":"$OUT/ov/rand.go","$GOROOT/src/math/rand/v2/rand.go":"$OUT/ov/v2/rand.go"}}
EOF
cd "$HERE/sim"
sed "s#=> /repo\$#=> $REPO#" go.mod > "$OUT/go.mod"; cp go.sum "$OUT/go.sum"
if [ "$WHAT" != plain ]; then
  X=$OUT/simx; [ "$WHAT" = instrumented ] && X=$OUT/sim
  [ -d "$OUT/ovx" ] && rm -rf "$OUT/ovx"
  mkdir -p "$OUT/ovx"
  if ! { (cd "$HERE/tools/instrument" && GOFLAGS= go run . "$REPO" "$OUT/ovx" "$OUT/overlay.json") > "$OUT/overlayx.json" &&
      go build -modfile="$OUT/go.mod" -overlay "$OUT/overlayx.json" -o "$X" . ; }; then
    echo "instrumented build failed, falling back to the plain one" >&2
    go build -modfile="$OUT/go.mod" -overlay "$OUT/overlay.json" -o "$X" .
  fi
fi
if [ "$WHAT" != instrumented ]; then
  go build -modfile="$OUT/go.mod" -overlay "$OUT/overlay.json" -o "$OUT/sim" .
fi
