#!/bin/sh
cd "$(dirname "$0")" && mkdir -p evidence/replay && /opt/venv/bin/python -c 'import sys; sys.dont_write_bytecode = True; import am.machine'
