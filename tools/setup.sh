#!/bin/sh
# Nothing is prebuilt: every check builds what it needs from /repo. This only checks that the tools are there.
set -e
cd "$(dirname "$0")/.."
for t in g++ mpicxx.openmpi mpirun.openmpi perl make; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
/opt/veriftools/pyvenv/bin/python -c 'import numpy' 
mkdir -p evidence replays
