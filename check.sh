#!/bin/bash
# check.sh PROPERTY [--tier quick|thorough]: verifies /repo's current tree against the contracts.
set -u
cd "$(dirname "$0")" || exit 2
. ./env.sh
P=$1; shift
T=${VERIF_TIER:-quick}
if [ "${1:-}" = "--tier" ]; then T=$2; fi
gv_build || exit 2
gv_mod
exec "$GV_WORK/bin/gv" -tier "$T" check "$P"
