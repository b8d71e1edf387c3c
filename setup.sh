#!/bin/bash
# nothing to build: the checks import /repo's working tree directly
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -B -c "
import sys; assert sys.version_info >= (3, 12)
import numpy, pandas, scipy
from sim import core
core.load_repo()
print('ok')"
