#!/bin/bash
# Nothing to install: the checks run /repo/src with the interpreter of the sandbox.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
/opt/venv/bin/python -c "import numpy, pandas, scipy, typer, py4j, yaml, pydantic" || exit 1
