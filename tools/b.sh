#!/bin/bash
# builds the analyzer into /verif/bin (development)
cd "$(dirname "$0")/.." && GOFLAGS=-mod=vendor GOPROXY=off GOTOOLCHAIN=local go build -C analyzer -o ../bin/goirverify .
