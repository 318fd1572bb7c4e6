#!/bin/bash
# Builds the verifier from the committed sources (the checks do the same if needed).
set -e
cd "$(dirname "$0")"
. ./env.sh
gv_build
