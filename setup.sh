#!/bin/bash
# Build the compiled kernels once; checks rebuild them when the sources differ.
cd "$(dirname "$0")"
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH="$PWD:$PWD/vendor"
mkdir -p evidence build
exec /opt/venv/bin/python -m vf.ext
