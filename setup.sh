#!/bin/bash
# Nothing to build ahead: every check builds klang's C extensions itself.
# Make sure the tools are there.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence
python3-vt -c 'import hypothesis; print("hypothesis", hypothesis.__version__)' || exit 1
/opt/pypyvenv/bin/pypy3 -c 'import numpy; print("numpy", numpy.__version__)' || exit 1
gcc --version | head -1
