#!/bin/bash
# nothing to build: the checks are Python; verify that the interpreter and the libraries they need are there
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1
mkdir -p evidence replays
exec "${VERIF_PYTHON:-/opt/venv/bin/python}" -c "import numpy, scipy, tensorflow, dst.runner, dst.registry as r; [r.get(p) for p in r.MODULES]; print('ok')"
