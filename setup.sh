#!/bin/bash
# Nothing to compile: checks that the toolchain the checks need is present.
cd "$(dirname "$0")" || exit 2
command -v tlc >/dev/null || { echo "tlc missing"; exit 2; }
/opt/venv/bin/python -c "import numpy, scipy, pyscf" || exit 2
mkdir -p evidence
exit 0
