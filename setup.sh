#!/bin/sh
# Builds the verifier from the committed sources.
set -e
cd "$(dirname "$0")"
. ./env.sh
mkdir -p bin evidence
cd gov
GOFLAGS=-mod=vendor go build -o ../bin/gov .
