#!/bin/bash
# Nothing is built ahead: every check rebuilds what it runs from /repo's working tree.
set -e
cd "$(dirname "$0")"
mkdir -p evidence .work
python3 -m py_compile lib/*.py checks/*.py
