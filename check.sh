#!/bin/bash
# check.sh ID...: decide properties of /repo's current source (builds the checker when needed)
cd "$(dirname "$0")" || exit 1
here=$PWD
bash ./build.sh >/dev/null || { echo "the checker does not build"; bash ./build.sh; exit 1; }
ids=$(IFS=,; echo "$*")
"$here/bin/cfcheck" -repo "${REPO:-/repo}" -verif "$here" -prop "$ids"
rc=$?
[ $rc -eq 0 ] && exit 0
exit 1
