# environment of all Go builds of the framework (offline, nothing outside the module cache)
export HOME=${HOME:-/root} PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS="-mod=readonly -buildvcs=false" GOWORK=off CGO_ENABLED=0
export GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod GOCACHE=${GOCACHE:-/root/.cache/go-build}
