#!/bin/bash
# builds the driver against /repo's working tree into $1 ($2: a further flag)
export HOME=${HOME:-/root}
export PATH=/opt/veriftools/go1.27.3/bin:/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export GOFLAGS="-overlay=$(dirname "$(realpath "$0")")/overlay.json -mod=mod" GO111MODULE=on GOPROXY=off GOWORK=off GOTOOLCHAIN=local
cd "$(dirname "$(realpath "$0")")" && exec go build ${2:+"$2"} -o "$1" .
