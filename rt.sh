#!/bin/bash
# rt.sh ID SEED TIER BUDGET OUT [REPLAY]: runtime evaluation of a property's contract on the real code
here="$(cd "$(dirname "$0")" && pwd)"
cd "$here"
exec env PYTHONPATH="${PYVC_REPO:-/repo}:$here" PYTHONDONTWRITEBYTECODE=1 XDG_CONFIG_HOME=/opt/vp/astropy-config OPENBLAS_NUM_THREADS=1 OMP_NUM_THREADS=1 \
  /opt/venv/bin/python -m rt.base "$@"
