#!/bin/bash
# Warms the build cache: builds the driver and one simulation binary.
cd "$(dirname "$0")" || exit 2
D=$(mktemp -d /tmp/vsimsetup.XXXXXX) || exit 2
trap 'rm -rf "$D"' EXIT
./check.sh build "$D"
