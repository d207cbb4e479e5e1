#!/bin/bash
# usage: check.sh Cxx   (run in /verif)
here=$(cd "$(dirname "$0")" && pwd)
. "$here/build.sh" || { echo "cannot build the analyser"; exit 2; }
exec "$here/bin/gtv" -repo "${GTV_REPO:-/repo}" -verif "$here" -check "$1" "${@:2}"
