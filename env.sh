# Environment for building and running the checks (same toolchain as /opt/vp/env.sh).
export HOME=/root LANG=${LANG:-C.UTF-8}
export PATH=/opt/veriftools/go1.23.12/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOSUMDB=off GOFLAGS=-mod=readonly GOWORK=off
export GOCACHE=/root/.cache/go-build GOMODCACHE=/root/go/pkg/mod
export CGO_ENABLED=1 CGO_LDFLAGS="-lopenblas"
export ASSUME_NO_MOVING_GC_UNSAFE_RISK_IT_WITH=go1.23
