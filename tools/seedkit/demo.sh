#!/bin/bash
# Runs the demonstration beside this script against the tree in the current directory.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
export HOME=${HOME:-/root} GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off GONOSUMDB='*' GONOSUMCHECK=1
export GOPATH=${GOPATH:-/root/go} GOCACHE=${GOCACHE:-/root/.cache/go-build}
mkdir "$work/mod"
cp "$here"/*_test.go "$work/mod/"
cp "$here/go.sum" "$work/mod/go.sum"
sed -e "s#@REPO@#$repo#" -e "s#@HERE@#$here#" "$here/go.mod.in" > "$work/mod/go.mod"
cd "$work/mod" && go test -vet=off -count=1 -timeout 120s @FLAGS@ .
