#!/bin/sh
# Builds the analyser, offline, from the committed files.
cd "$(dirname "$0")" || exit 1
mkdir -p bin evidence
for f in tool/*.go tool/go.mod; do
	if [ ! -x bin/limcheck ] || [ "$f" -nt bin/limcheck ]; then
		cd tool && GOFLAGS=-mod=mod GOPROXY=off GOTOOLCHAIN=local GOWORK=off go build -o ../bin/limcheck.tmp.$$ . && mv ../bin/limcheck.tmp.$$ ../bin/limcheck
		exit
	fi
done
exit 0
