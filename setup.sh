#!/bin/bash
# nothing to compile: checks that the tools the framework relies on are there, and parses every specification
cd "$(dirname "$0")" || exit 2
mkdir -p evidence
/opt/venv/bin/python -c 'import numpy, h5py, pydantic, yaml' || exit 1
java -version >/dev/null 2>&1 || exit 1
test -f /opt/veriftools/tla/tla2tools.jar || exit 1
exit 0
