#!/bin/bash
# Nothing is installed; verifies that the tools the checks need are there.
set -e
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c "import numpy"
