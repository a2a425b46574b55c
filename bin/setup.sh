#!/bin/bash
# Nothing is compiled ahead of time: verify that the tools and the specifications are usable.
set -e
cd "$(dirname "$0")/.."
test -x /opt/venv/bin/python
java -cp /opt/veriftools/tla/tla2tools.jar tla2sany.SANY -h >/dev/null 2>&1 || true
mkdir -p evidence
echo setup ok
