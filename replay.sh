#!/bin/bash
# replay.sh FILE: runs a reported violation again on /repo's working tree (exit 1: it is still there).
here="$(cd "$(dirname "$0")" && pwd)"
bash "$here/build.sh" || exit 2
exec "${SIM_TARGET:-$here/target}/debug/simdriver" replay "$1"
