#!/bin/bash
# Nothing is compiled: check that the interpreter, the code under test and ICU are there.
cd "$(dirname "$0")" || exit 2
export PYTHONDONTWRITEBYTECODE=1 PYTHONPYCACHEPREFIX=/nonexistent/verif-pycache
mkdir -p evidence
exec /opt/venv/bin/python -B -W ignore -c 'import sys; sys.path.insert(0, "."); from mon import env; print("lgr", env.lgr.__file__, "Unicode", env.unidb().get_unicode_version())'
