#!/bin/bash
# nothing to install: check that the interpreter, solver and compilers are there and prepare the build folder
set -e
cd "$(dirname "$0")"
mkdir -p .build/inc evidence replays
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
clang-18 --version | head -1
gcc --version | head -1
