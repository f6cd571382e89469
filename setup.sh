#!/bin/bash
# nothing to fetch or compile ahead of time: checks that need the C++ extension build it from /repo's current source
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
python3-vt -c "import z3" && /opt/venv/bin/python -c "import duckdb, polars"
