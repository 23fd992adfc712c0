#!/bin/bash
# Run the check of one property: check.sh <property> [quick|thorough]
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export PYTHONPATH="${MAPRY_REPO:-/repo}:$here" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore
[ -n "$2" ] && export VERIF_TIER="$2"
cd "$here"
exec python -m checks "$1"
