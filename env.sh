# Environment of the checks (sourced).
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off CGO_ENABLED=1 GONOSUMDB=* GOFLAGS=
VERIF_DIR=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
GV_WORK=${GV_WORK:-/verif/.work}
mkdir -p "$GV_WORK/bin"
# the verifier is rebuilt when its sources changed (go's build cache makes this quick)
gv_build() {
  (cd "$VERIF_DIR/gv" && GOFLAGS=-mod=mod go build -o "$GV_WORK/bin/gv.$$" . && mv -f "$GV_WORK/bin/gv.$$" "$GV_WORK/bin/gv")
}
# /repo ignores go.sum, so the module files are taken from copies
gv_mod() {
  cp /repo/go.mod "$GV_WORK/aptutil.mod"
  cp "$VERIF_DIR/gomod.sum" "$GV_WORK/aptutil.sum"
  export GOFLAGS="-mod=mod -modfile=$GV_WORK/aptutil.mod"
}
