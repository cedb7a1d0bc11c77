# Go toolchain of this sandbox, offline
for d in "$GOROOT" /opt/veriftools/go1.27.3 /usr/local/go; do
  if [ -x "$d/bin/go" ]; then export GOROOT="$d"; export PATH="$d/bin:$PATH"; break; fi
done
export HOME=${HOME:-/root}
export GOPATH=${GOPATH:-/root/go}
export GOMODCACHE=${GOMODCACHE:-$GOPATH/pkg/mod}
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=mod GONOSUMDB='*' GOWORK=off
