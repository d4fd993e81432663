#!/bin/bash
# usage: check.sh <property> <quick|thorough>
here="$(cd "$(dirname "$0")" && pwd)"
"$here/setup.sh" || { echo "engine does not build"; exit 2; }
export GOPROXY=off GOTOOLCHAIN=local GOSUMDB=off VERIF_DIR="$here"
exec "$here/bin/verif" check "$1" "${2:-quick}"
