#!/bin/bash
# nothing to build: checks that the interpreter, the stand-ins and the compilers are there
cd "$(dirname "$0")" || exit 1
export PYTHONDONTWRITEBYTECODE=1
/opt/venv/bin/python -W ignore -c 'import numpy, scipy, mpmath, jinja2' || exit 1
command -v gcc >/dev/null || exit 1
chmod +x check
mkdir -p evidence replays
echo ok
