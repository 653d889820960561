#!/bin/bash
# Builds every harness from /repo's working tree (each check would also do it on its own).
cd "$(dirname "$0")" || exit 2
rc=0
for h in harness/c*.cpp; do
  b=$(basename "$h" .cpp)
  python3 vbuild.py "$b" >/dev/null || rc=1
done
python3 pybuild.py >/dev/null || rc=1
exit $rc
