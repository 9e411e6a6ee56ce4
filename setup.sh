#!/bin/bash
# Builds everything once; every check rebuilds what changed.
set -e
cd "$(dirname "$0")"
python3 tools/setup.py
