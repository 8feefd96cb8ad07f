#!/bin/bash
# The checks build what they need themselves; this only verifies the tools.
set -e
cd "$(dirname "$0")"
g++ --version | head -1
python3 -m py_compile check.py specs.py
mkdir -p build evidence
