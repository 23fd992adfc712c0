#!/bin/bash
# Nothing to build in advance: every check builds what it needs.
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh
export PYTHONPATH="/repo:$here"
cd "$here" && mkdir -p evidence && python -c 'import mapry, vlib.schemagen, vlib.docgen, vlib.gorun, vlib.pyrun'
