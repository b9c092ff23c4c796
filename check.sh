#!/bin/bash
# check.sh PROPERTY [quick|thorough] [SECONDS]: builds from /repo's working tree, searches, reports.
# 0: held on everything explored; 1: VIOLATION line; anything else: an error of the check.
here="$(cd "$(dirname "$0")" && pwd)"
prop="$1"; tier="${2:-${VERIF_TIER:-quick}}"; secs="$3"
bash "$here/build.sh" || exit 2
exec "${SIM_TARGET:-$here/target}/debug/simdriver" check "$prop" "$tier" "${VERIF_SEED:-1}" "$here" $secs
