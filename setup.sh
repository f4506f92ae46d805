#!/bin/bash
# Nothing to build: the checks import /repo's working tree. Verify the tools are there.
cd "$(dirname "$0")" && mkdir -p evidence replays
export TMPDIR=$(mktemp -d /tmp/pbt.XXXXXX); trap 'rm -rf "$TMPDIR"' EXIT
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
from pbt import env; env.setup()
import hypothesis, numpy, scipy, sympy, networkx, h5py, probayes
print('ready: hypothesis', hypothesis.__version__, 'probayes', probayes.__file__)"
