#!/bin/bash
# Nothing to build: the checks import /repo's working tree. Only checks that the tools are there.
here="$(cd "$(dirname "$0")" && pwd)"
python=/opt/venv/bin/python
[ -x "$python" ] || python=python3
mkdir -p "$here/evidence"
cd "$here/harness" && exec "$python" -B -c 'import core; core.ensure_hypothesis(); import hypothesis, numpy; print("hypothesis", hypothesis.__version__, "numpy", numpy.__version__)'
