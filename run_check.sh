#!/bin/sh
# run_check.sh ID [tier]
cd "$(dirname "$0")" && exec python3 lib/run.py "$@"
