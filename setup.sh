#!/bin/bash
# Builds the symbolic executor from the committed sources (offline, about 12 s).
set -eu
cd "$(dirname "$0")"
python3 check.py --build-only
