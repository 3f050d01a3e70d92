#!/bin/bash
# bash check.sh <property> [--case FILE]   (VERIF_TIER=quick|thorough, VERIF_SEED=n)
cd "$(dirname "$0")" || exit 2
exec python3 lib/runner.py "$@"
