#!/bin/bash
# Unpacks the property-testing library from the offline wheelhouse into .deps
# (git-ignored).  Every check does the same on demand, so this is only a warm-up.
cd "$(dirname "$(readlink -f "$0")")" || exit 2
exec ./run.sh list
