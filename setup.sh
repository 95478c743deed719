#!/bin/bash
# Nothing to build: the library and the checks are pure Python. Verify the toolchain is usable.
here=$(cd "$(dirname "$0")" && pwd)
mkdir -p "$here/evidence"
/opt/venv/bin/python -c "import torch, numpy; print('torch', torch.__version__, 'numpy', numpy.__version__)"
