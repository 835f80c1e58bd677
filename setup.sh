#!/bin/bash
# Builds the analyzer from the committed sources, offline.
set -e
D=$(cd "$(dirname "$0")" && pwd)
. "$D/env.sh"
mkdir -p "$D/bin"
cd "$D/analyzer"
go build -o "$D/bin/.goirverify.$$" .
mv "$D/bin/.goirverify.$$" "$D/bin/goirverify"
