#!/bin/bash
# usage: check.sh ID [quick|thorough]   or   check.sh -replay FILE
D="$(cd "$(dirname "$0")" && pwd)"
export VERIF_DIR="$D"
if [ ! -x "$D/bin/engine" ] || [ -n "$(find "$D/engine" -name '*.go' -newer "$D/bin/engine" -print -quit)" ]; then
    "$D/setup.sh" || { echo "cannot build the engine" >&2; exit 3; }
fi
if [ "$1" = "-replay" ]; then exec "$D/bin/engine" -replay "$2"; fi
exec "$D/bin/engine" -id "$1" -tier "${2:-${VERIF_TIER:-quick}}"
