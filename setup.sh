#!/bin/bash
# Nothing is compiled: the harness is plain Python and imports the library from
# /repo's working tree. Check that this is really what gets imported.
cd "$(dirname "$0")" || exit 2
mkdir -p evidence/replay
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent-pycache
exec /opt/venv/bin/python -B -c 'import vlib.core as c; c.import_library(); print("library:", c.library_path())'
