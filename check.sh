#!/bin/bash
# usage: check.sh PROPERTY quick|thorough    (decides one property for /repo's working tree)
#        check.sh --build                     (only builds the checker)
here=$(cd "$(dirname "$0")" && pwd)
export HOME="${HOME:-/root}"
export PATH=/usr/local/go/bin:/usr/local/bin:/usr/bin:/bin
export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off GOOS=linux GOARCH=amd64
unset GODEBUG
mkdir -p "$here/bin" || exit 2
(cd "$here/engine" && CGO_ENABLED=0 go build -o "$here/bin/verify" .) || exit 2
[ "$1" = --build ] && exit 0
cd "$here" && exec "$here/bin/verify" -prop "$1" -tier "$2" -verif "$here"
