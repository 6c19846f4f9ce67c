#!/bin/bash
# builds the verifier (gocv) from the committed sources, offline
cd "$(dirname "$0")" || exit 1
export PATH=/opt/veriftools/go1.26.10/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod GOSUMDB=off GOWORK=off
mkdir -p bin && cd gocv && go build -o ../bin/gocv .
