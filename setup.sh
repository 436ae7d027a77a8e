#!/bin/bash
# Nothing to install: every check compiles its own drivers from /repo's tree.
set -e
cd "$(dirname "$0")"
mkdir -p .cache evidence
clang++-18 --version >/dev/null
g++ --version >/dev/null
valgrind --version >/dev/null
python3 -c 'import sys; sys.path.insert(0, "vp"); import props; print(len(props.PROPS), "properties configured")'
