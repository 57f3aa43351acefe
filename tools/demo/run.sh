#!/bin/bash
# Builds a scratch copy of the repository in the current directory together with
# the scripted smtpd stand-in and runs the demonstration test beside this file.
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
d=$(mktemp -d /tmp/demo.XXXXXX) || exit 99
trap 'rm -rf "$d"' EXIT
for f in "$repo"/*.go; do
  case "$f" in *_test.go) ;; *) cp "$f" "$d/" ;; esac
done
cp "$here"/*_test.go "$d/"
mkdir "$d/smtpd"
cp "$here/smtpd.go.txt" "$d/smtpd/smtpd.go"
printf 'module github.com/siebenmann/smtpd\n\ngo 1.17\n' > "$d/smtpd/go.mod"
printf 'module github.com/siebenmann/sinksmtp\n\ngo 1.17\n\nrequire github.com/siebenmann/smtpd v0.0.0\n\nreplace github.com/siebenmann/smtpd => ./smtpd\n' > "$d/go.mod"
export GOFLAGS=-mod=mod GOPROXY=off GOSUMDB=off GOTOOLCHAIN=local GO111MODULE=on
mkdir "$d/tmp"; export TMPDIR="$d/tmp"
[ -n "$HOME" ] || export HOME="$d"
cd "$d" && go test -vet=off -count=1 -timeout 120s -run Demo . 
