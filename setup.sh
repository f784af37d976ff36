#!/bin/bash
# Builds the driver once, so that the checks find the compiled dependencies in the Go cache.
set -e
cd "$(dirname "$0")"
. /opt/vp/env.sh
d=$(mktemp -d)
trap 'rm -rf "$d"' EXIT
(cd harness && go build -o "$d/drv" . && go build -race -o "$d/drvr" .)
java -version
echo setup done
