#!/bin/bash
# Nothing has to be built ahead: every check builds what it needs. This only sees that the tools are there.
cd "$(dirname "$0")" || exit 1
java -version >/dev/null 2>&1 || { echo "no java"; exit 1; }
go version >/dev/null || exit 1
test -f /opt/veriftools/tla/tla2tools.jar || { echo "no TLC"; exit 1; }
python3 -c 'import sys; sys.path.insert(0, "lib"); import props' || exit 1
