#!/bin/bash
# builds the verifier (offline)
cd "$(dirname "$0")/gover" && GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local go build -o "${1:-/verif/bin/gover}" .
