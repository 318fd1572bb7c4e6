#!/bin/bash
# t.sh [flags] PROP: run the verifier verbosely (development)
cd /verif; . ./env.sh; gv_build || exit 2; gv_mod
exec "$GV_WORK/bin/gv" -v -noreplay "$@"
