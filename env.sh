# Go environment of the checks: GOPATH mode as in /opt/vp/env.sh, own GOPATH and cache.
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GO111MODULE=off GOPROXY=off GOFLAGS= GOWORK=off GOENV=off
export GOPATH=/verif/gopath GOCACHE=/verif/.cache/gocache TZ=UTC
