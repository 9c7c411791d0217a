#!/bin/bash
# Nothing to build: the checks import effector from /repo and hypothesis from the tool venv.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -c "
import sys; sys.path.insert(0, '.')
from vlib import env
import hypothesis, effector; print('hypothesis', hypothesis.__version__, 'effector', effector.__file__)"
