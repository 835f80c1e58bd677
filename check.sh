#!/bin/bash
# ./check.sh <property> [thorough]: decides one property on the current source of /repo.
D=$(cd "$(dirname "$0")" && pwd)
. "$D/env.sh"
export VERIF_TIER=${2:-${VERIF_TIER:-quick}}
export VERIF_DIR=$D VERIF_REPO=${VERIF_REPO:-/repo}
B=$D/bin/goirverify
if [ ! -x "$B" ] || [ -n "$(find "$D/analyzer" \( -name "*.go" -o -name explain.json \) -newer "$B" -print -quit)" ]; then
    "$D/setup.sh" || exit 2
fi
export GOFLAGS=-mod=readonly
exec "$B" "$1"
