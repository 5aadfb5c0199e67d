#!/bin/bash
# check.sh PROPERTY quick|thorough: builds the simulator against /repo's working tree and runs one check.
cd "$(dirname "$0")" || exit 2
bin=$(sim/build.sh) || exit 2
exec "$bin" check --property "$1" --tier "$2" --out .
