#!/bin/bash
# Builds the symbolic engine into /verif/bin (only when its sources changed).
here=$(cd "$(dirname "$0")" && pwd)
cd "$here/engine" || exit 2
sum=$(cat ./*.go go.mod go.sum 2>/dev/null | sha256sum | cut -c1-16)
[ -x "$here/bin/gosym" ] && [ "$(cat "$here/bin/gosym.sum" 2>/dev/null)" = "$sum" ] && exit 0
mkdir -p "$here/bin"
GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOWORK=off CGO_ENABLED=0 go build -o "$here/bin/gosym.tmp.$$" . && mv "$here/bin/gosym.tmp.$$" "$here/bin/gosym" && echo "$sum" > "$here/bin/gosym.sum"
