#!/bin/bash
# Runs the demonstration beside this file against the gpgpdump tree in the current directory.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
export HOME=${HOME:-/root} GOENV=off GO111MODULE=on GOWORK=off GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off TZ=UTC LC_ALL=C.UTF-8
export GOPATH=${GOPATH:-/root/go}
d=$(mktemp -d) || exit 1
trap 'rm -rf "$d"' EXIT
cp "$here"/*.go "$d"/ && cp "$repo"/go.sum "$d"/ || exit 1
{
  printf 'module demo\n\ngo 1.16\n\nrequire github.com/spiegel-im-spiegel/gpgpdump v0.0.0\n\nreplace github.com/spiegel-im-spiegel/gpgpdump => %s\n\n' "$repo"
  sed -n '/^require (/,/^)/p' "$repo"/go.mod
} > "$d/go.mod"
cd "$d" && go build -o demo . && timeout 120 ./demo
