#!/bin/sh
# Builds the analyser from the committed files, offline.
set -e
cd "$(dirname "$0")"
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
mkdir -p bin evidence
cd tool && go build -o ../bin/antlint .
