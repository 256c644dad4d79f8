#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decide one property on /repo's working tree.
cd "$(dirname "$0")" || exit 3
prop=$1; tier=${2:-${VERIF_TIER:-quick}}
./build.sh || exit 3
. /opt/vp/env.sh >/dev/null 2>&1
exec .build/gosym -prop "$prop" -tier "$tier" -verif "$PWD" -repo "${VERIF_REPO:-/repo}"
