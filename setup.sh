#!/bin/bash
# compile the real-number overrides of TLC and build /repo's extensions
cd "$(dirname "$0")" || exit 2
export PYTHONPATH="$PWD/lib" PYTHONDONTWRITEBYTECODE=1
exec /opt/venv/bin/python -c 'import vlib; vlib.build_java(); vlib.build_repo()'
