# shared environment of every script of this directory (sourced)
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GONOSUMDB='*' GONOSUMCHECK=1
export GOCACHE="${GOCACHE:-/root/.cache/go-build}" GOMODCACHE="${GOMODCACHE:-/root/go/pkg/mod}"
