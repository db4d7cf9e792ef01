#!/bin/sh
# nothing to install: checks that the tools the framework needs are present
set -e
cd "$(dirname "$0")"
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
/usr/lib/llvm-18/bin/clang++ --version | head -1
command -v z3-new cvc5 >/dev/null
mkdir -p evidence
