#!/bin/bash
# Runs demo_test.go (beside this file) inside package PKG of the repository in the current directory.
PKG=@PKG@
d=$(cd "$(dirname "$0")" && pwd)
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
t=$(mktemp -d) || exit 3
trap 'rm -rf "$t"' EXIT
printf '{"Replace":{"%s/%s/zz_demo_test.go":"%s/demo_test.go"}}' "$PWD" "$PKG" "$d" > "$t/overlay.json"
timeout 250 go test -vet=off -count=1 -timeout 200s -overlay "$t/overlay.json" -run '^TestZZDemo' "./$PKG"
