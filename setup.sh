#!/bin/bash
# Builds the verification engine from /verif/engine (offline; x/tools comes from the module cache).
cd "$(dirname "$0")/engine" || exit 1
export HOME=/root PATH=/opt/veriftools/go1.26.10/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOSUMDB=off GOPATH=/root/go GOMODCACHE=/root/go/pkg/mod CGO_ENABLED=0
unset GOROOT GOWORK
mkdir -p ../bin
go build -o ../bin/engine.tmp.$$ . && mv ../bin/engine.tmp.$$ ../bin/engine
