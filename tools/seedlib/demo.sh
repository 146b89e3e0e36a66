#!/bin/bash
# Exit 0: the property held.  Runs in the repository after its build.
set -u
D=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d /tmp/demo.XXXXXXXX) || exit 99
trap 'rm -rf "$W"' EXIT
python3 -B "$D/mk.py" "$W" || exit 99
mkdir "$W/run"
cd "$W/run" || exit 99
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$W/pkg:$D" DEVSIM_MATH_LIBS="$W/libsimmath.so" OMP_NUM_THREADS=1 timeout 200 python3 -B "$D/demo.py"
