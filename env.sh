# Sourced by the scripts: offline Go toolchain and a writable cache.
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin:$PATH:/opt/veriftools/go1.27.3/bin
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod CGO_ENABLED=0
VERIF=$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)
REPO=${VERIF_REPO:-/repo}
build_govc() {
	mkdir -p "$VERIF/.bin"
	(cd "$VERIF/engine" && go build -o "$VERIF/.bin/govc.$$" . && mv "$VERIF/.bin/govc.$$" "$VERIF/.bin/govc")
}
