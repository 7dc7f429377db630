#!/bin/bash
# Nothing to compile: checks that the interpreter and the code under test load.
here="$(cd "$(dirname "$0")" && pwd)"
mkdir -p "$here/evidence"
"$here/run.sh" --selftest
