#!/bin/bash
set -e
cd "$(dirname "$0")"
python3-vt -c "import z3"
clang++ --version >/dev/null
echo setup ok
