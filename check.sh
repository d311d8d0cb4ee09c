#!/bin/sh
# Decides one property of /repo from its source: check.sh ID [quick|thorough]
cd "$(dirname "$0")" || exit 1
mkdir -p bin evidence
./setup.sh >/dev/null 2>bin/build.log || { cat bin/build.log; echo "VIOLATION property=$1 replay=$PWD/bin/build.log"; exit 1; }
exec ./bin/limcheck "$1" "${2:-${VERIF_TIER:-quick}}"
