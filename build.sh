#!/bin/bash
# Builds the engine into /verif/.build (offline).
cd "$(dirname "$0")" || exit 3
. /opt/vp/env.sh >/dev/null 2>&1
mkdir -p .build
new=$(cat engine/*.go engine/go.mod engine/go.sum | sha256sum | cut -c1-16)
if [ ! -x .build/gosym ] || [ "$(cat .build/stamp 2>/dev/null)" != "$new" ]; then
  ( cd engine && GOFLAGS=-mod=mod GOSUMDB=off go build -o ../.build/gosym.tmp$$ . ) || exit 3
  mv .build/gosym.tmp$$ .build/gosym && echo "$new" > .build/stamp
fi
