#!/bin/bash
# builds the monitors once (each check rebuilds what changed)
cd "$(dirname "$0")" || exit 2
./build.sh plain || exit 2
./build.sh asan || exit 2
./build.sh miri >/dev/null 2>&1 || echo "note: Miri does not start here"
exit 0
