#!/bin/sh
# ./check.sh <PROPERTY>: decide one property (see DESIGN.md); honours VERIF_SEED and VERIF_TIER
cd "$(dirname "$0")" && exec python3 tools/check.py "$@"
