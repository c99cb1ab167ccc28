#!/bin/bash
# check.sh <property>: rebuild the simulator against /repo's working tree and run one check.
cd "$(dirname "$0")" || exit 2
./sim/build.sh >&2 || { echo "check: the build failed; no verdict" >&2; exit 2; }
exec ./.cache/vsim check -prop "$1" -root "$PWD"
