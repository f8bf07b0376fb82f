#!/bin/bash
# run.sh ID [--replay FILE]: decides one property, see tools/check.py
cd "$(dirname "$0")" && exec python3 tools/check.py "$@"
