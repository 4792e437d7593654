#!/bin/bash
# run.sh setup | check PROPERTY quick|thorough | replay FILE | determinism [PROPERTY]
export PATH=/opt/veriftools/go1.25.14/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export HOME=/root GOROOT=/opt/veriftools/go1.25.14 GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOWORK=off
export GOCACHE=/verif/.build/gocache
mkdir -p /verif/.build && cd /verif/sim || exit 3
go build -o /verif/.build/driver ./cmd/driver || exit 3
exec /verif/.build/driver "$@"
