#!/bin/sh
# Warms the build cache; every check builds what it needs again.
cd "$(dirname "$0")/gover" && GOFLAGS=-mod=vendor GOWORK=off go build -o /dev/null .
