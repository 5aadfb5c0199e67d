#!/bin/bash
# replay.sh FILE: builds the simulator against /repo's working tree and replays one recorded violation.
f=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
bin=$(sim/build.sh) || exit 2
exec "$bin" replay "$f"
