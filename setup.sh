#!/bin/sh
# builds nothing the checks cannot build themselves; fails early when a tool is missing
set -e
cd "$(dirname "$0")"
mkdir -p .cache evidence
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
cvc5 --version | head -1
cargo --version
./run.py C08
