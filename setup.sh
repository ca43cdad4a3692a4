#!/bin/sh
# nothing to build: the checks run TLC and import the code from /repo's working tree
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
java -version >/dev/null 2>&1 && /opt/venv/bin/python -c 'import cantera, networkx'
