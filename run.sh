#!/bin/bash
# usage: run.sh ID [thorough]   - builds the checker when needed and decides one property on /repo
set -u
here="$(cd "$(dirname "$0")" && pwd)"
[ "${2:-}" = thorough ] && export ADSCHECK_TIER=thorough
export ADSCHECK_VERIF="$here"
bash "$here/setup.sh" || { echo "adscheck: cannot build the checker"; exit 2; }
exec "$here/bin/adscheck" check "$1"
