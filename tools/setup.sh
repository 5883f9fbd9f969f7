#!/bin/bash
# nothing is downloaded or installed: the verifier is the python code in vc/ with the installed z3
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
python3-vt -m compileall -q vc contracts >/dev/null
python3-vt -c "import z3"
