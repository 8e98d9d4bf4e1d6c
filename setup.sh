#!/bin/bash
# Nothing to compile: the code under test is pure Python, imported from /repo's working tree at every run.
cd "$(dirname "${BASH_SOURCE[0]}")" || exit 1
mkdir -p evidence/replays
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/repo/src:. /opt/venv/bin/python -c "
import corrct, numpy, scipy, skimage, pywt
import rtm.core
assert corrct.__file__.startswith('/repo/src/'), corrct.__file__
print('corrct', corrct.__file__, 'numpy', numpy.__version__, 'scipy', scipy.__version__)
"
