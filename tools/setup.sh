#!/bin/bash
# Nothing to build ahead: each check copies and builds /repo's current tree itself. Checks that the interpreter runs.
here="$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
PY="${PY:-/opt/venv-pypy/bin/python}"
PYTHONDONTWRITEBYTECODE=1 exec "$PY" -c "import sys; sys.path.insert(0, '$here/harness'); import meta, arm; print('ok', sys.version)"
