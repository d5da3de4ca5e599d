#!/bin/bash
# Warms the build cache: builds the monitor with and without the race detector.
set -u
cd "$(dirname "$0")" || exit 2
. ./env.sh
TMP=$(mktemp -d /tmp/verif.XXXXXX) || exit 2
trap 'rm -rf -- "$TMP"' EXIT
(cd harness && go build -o "$TMP/mon" . && go build -race -o "$TMP/mon_race" .) || exit 1
mkdir -p evidence
