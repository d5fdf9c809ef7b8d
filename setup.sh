#!/bin/bash
# Builds the simulator once against /repo, to show that everything needed is here.
# The checks build what they use themselves.
set -u
cd "$(dirname "$0")" || exit 1
VERIF_RUNS=200 exec bash ./selftest.sh
