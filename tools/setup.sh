#!/bin/bash
# Nothing to build: the library is pure Python and imported from /repo/src.
# Verify that the interpreter and the library's one dependency are there.
set -e
cd "$(dirname "$0")/.."
/opt/venv/bin/python -c "import lxml.etree, sys; print('python', sys.version.split()[0], 'lxml ok')"
mkdir -p evidence
