#!/bin/sh
# check.sh ID...: builds the analyser if needed and decides the properties
# from /repo's current source.
cd "$(dirname "$0")" || exit 2
export GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off CGO_ENABLED=0
mkdir -p bin evidence
if ! (cd tool && go build -o ../bin/antlint .) >evidence/build.log 2>&1; then
	cat evidence/build.log >&2
	if [ ! -x bin/antlint ]; then
		echo "the analyser could not be built" >&2
		exit 2
	fi
fi
exec bin/antlint -repo "${ANT_REPO:-/repo}" "$@"
