#!/bin/bash
# run.sh <property> [--replay FILE]: runs one check. VERIF_SEED and VERIF_TIER (quick|thorough) select the run.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
PY="${PY:-/opt/venv-pypy/bin/python}"
export PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 SETUPTOOLS_SCM_PRETEND_VERSION=0.1
exec "$PY" "$here/harness/driver.py" "$@"
