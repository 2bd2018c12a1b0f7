export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=vendor GOWORK=off GOENV=off
export GOCACHE=${GOCACHE:-/root/.cache/go-build}
