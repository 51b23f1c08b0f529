#!/bin/bash
# nothing to build in advance: every check compiles the sources of /repo itself; make sure the tools are there
set -e
cd "$(dirname "$0")/.."
for t in goto-cc goto-instrument cbmc gcc g++ nm python3; do command -v $t >/dev/null || { echo "missing: $t"; exit 1; }; done
python3 -m py_compile tools/*.py
mkdir -p evidence
