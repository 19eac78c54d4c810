#!/bin/bash
# Nothing to build ahead of time: checks build what they need from /repo.
# Verifies that the toolchain is there.
set -e
cd "$(dirname "$0")"
mkdir -p evidence replays
java -version >/dev/null 2>&1
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c 'import numpy, mpi4py, h5py'
for f in spec/*.tla; do :; done
echo "setup ok"
