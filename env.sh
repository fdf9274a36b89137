# Sourced by check.sh: an offline Go with protoc and its plugins on PATH.
for d in /opt/veriftools/go1.27.3/bin; do
  [ -x "$d/go" ] && PATH=$d:$PATH
done
[ -d /opt/vp/bin ] && PATH=/opt/vp/bin:$PATH
export PATH
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GO111MODULE=on GOSUMDB=off GOWORK=off
export GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
