export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export HOME=${HOME:-/root}
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off GOTELEMETRY=off
export GOMODCACHE=/root/go/pkg/mod GOCACHE=/root/.cache/go-build
