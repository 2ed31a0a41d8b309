#!/bin/bash
# Development aid: the array layer against numpy.
cd "$(dirname "$0")/.." && /opt/venv/bin/python run.py S00 --verbose 2>&1 | grep "^agree" | grep -v '\[\]$' | cut -c1-${1:-260}; rm -f "$PWD/evidence/S00.json"
