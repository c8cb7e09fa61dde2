#!/bin/bash
# Sanity of the toolchain the checks need; nothing has to be built (the package is imported from /repo's working tree).
set -e
cd "$(dirname "$0")/.."
java -version 2>&1 | head -1
test -f /opt/veriftools/tla/tla2tools.jar
/opt/venv/bin/python -c "import jax, flax, h5py, mpi4py; print('jax', jax.__version__)"
mpirun --version | head -1
mkdir -p evidence
