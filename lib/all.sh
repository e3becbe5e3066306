#!/bin/bash
# Runs the checks given (all without arguments), one after the other; prints exit code and time.
cd "$(dirname "$0")/.."
for p in ${@:-$(python3 -c 'import sys; sys.path.insert(0,"lib"); import props; print(*props.PROPS)')}; do
  s=$(date +%s); ./check $p >/tmp/all.$p 2>&1; r=$?
  echo "$p exit $r $(( $(date +%s) - s ))s $(grep -c ^VIOLATION /tmp/all.$p) $(tail -c 300 /tmp/all.$p | tail -1 | cut -c1-220)"
done
