#!/bin/sh
# Nothing to build (pure Python): make the output folders and check the interpreter's libraries.
cd "$(dirname "$0")" || exit 1
mkdir -p evidence replays
exec /opt/venv/bin/python -B -c 'import numpy, scipy, pandas, yaml, voluptuous, rundec, ckmutil'
