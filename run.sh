#!/bin/bash
# usage: run.sh PROP [--tier quick|thorough] | run.sh --replay FILE
# Runs one property's monitors against the code in /repo's working tree.
# (FX_REPO: another tree, only used while developing, for planted bugs.)
here="$(cd "$(dirname "$0")" && pwd)"
repo="${FX_REPO:-/repo}"
cd "$here" || exit 2
export FX_REPO="$repo" FX_HOME="$here"
export PYTHONPATH="$repo/src:$here" PYTHONHASHSEED=0
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/pycache
exec /opt/venv/bin/python -X faulthandler -m fxmon.main "$@"
