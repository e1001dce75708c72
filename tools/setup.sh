#!/bin/bash
# nothing to build: the checks import /repo/src directly.  Verify that the tools are there.
set -e
cd "$(dirname "$0")/.."
mkdir -p evidence
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c "import sys; sys.path.insert(0,'harness'); import opsys; print('oidcop from', opsys.oidcop.__file__)"
