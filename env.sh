# Sourced by run.sh and setup.sh. Everything is built offline, into /verif/.cache (ignored by git).
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GO111MODULE=on GOMODCACHE=/root/go/pkg/mod CGO_ENABLED=0 GONOSUMDB='*' GONOSUMCHECK=1 GOFLAGS=-mod=mod GOWORK=off
export GOCACHE="$here/.cache/gocache"
unset GOROOT GOPATH
unset GOFLAGS
build_checker() {
  mkdir -p "$here/.cache/gocache"
  ( cd "$here/lenscheck" && go build -o "$here/.cache/lenscheck.$$" . && mv "$here/.cache/lenscheck.$$" "$here/.cache/lenscheck" )
}
