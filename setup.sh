#!/bin/bash
# Nothing to compile: the checks import graphix from /repo's working tree. This only verifies that it imports.
here=$(cd "$(dirname "$0")" && pwd)
export SETUPTOOLS_SCM_PRETEND_VERSION=0.3.5 PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache
mkdir -p "$here/evidence"
cd /repo || exit 1
[ -f graphix/_version.py ] || /opt/venv/bin/python -m setuptools_scm --force-write-version-files >/dev/null || exit 1
cd "$here" && PYTHONPATH="/repo:$here" /opt/venv/bin/python -c "import graphix, mc.harness; print('setup ok', graphix.__file__)"
