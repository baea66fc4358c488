#!/bin/bash
# build everything once
cd "$(dirname "$0")" || exit 2
V=$PWD
. "$V/build.sh"
build_crate mc || exit 1
if [ -d sched ]; then build_crate sched || exit 1; fi
mkdir -p evidence
