#!/bin/bash
# run.sh <property> [quick|thorough]: rebuild what the check needs from /repo's
# working tree, then explore. Exit 0: held; 1: VIOLATION; anything else: error.
set -u
cd "$(dirname "$0")" || exit 2
V=$PWD
ID=${1:?usage: run.sh PROPERTY [quick|thorough]}
TIER=${2:-${VERIF_TIER:-quick}}
. "$V/build.sh"
case "$ID" in
  C19|C20|C21|C22) build_crate sched || { echo "build failed"; exit 2; }; exec "$V/sched/target/debug/sched" "$ID" "$TIER" ;;
  *) build_crate mc || { echo "build failed"; exit 2; }; exec "$V/mc/target/debug/mc" "$ID" "$TIER" ;;
esac
