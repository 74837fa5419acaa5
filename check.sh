#!/bin/bash
# check.sh <property> <quick|thorough>: build the simulator from /repo's working tree, run the check.
set -u
cd "$(dirname "$0")"
id=$1; tier=${2:-quick}
bash ./build.sh || { echo "check.sh: the simulator does not build from /repo's tree" >&2; exit 2; }
exec ./target/debug/decysim check "$id" "$tier"
