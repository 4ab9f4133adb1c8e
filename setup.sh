#!/bin/bash
# Nothing to build: the checks import /repo's working tree directly.  Verify that the tools they need are present.
set -e
cd "$(dirname "$0")"
mkdir -p evidence
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo /opt/venv/bin/python -c "
import sys; sys.path.insert(0, 'harness')
import pbt, seyfert, numpy, scipy, h5py
print('hypothesis', pbt.hypothesis.__version__, 'numpy', numpy.__version__)"
