#!/bin/sh
# build the engine
cd "$(dirname "$0")/engine" && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o ../bin/engine .
