#!/bin/sh
# The tools the checks need are present (nothing is built ahead: every check compiles its units from /repo's current tree).
set -e
for t in clang++-17 clang++-18 opt-18 llvm-nm-18 cvc5 python3-vt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import z3, ctypes; print("z3", z3.get_version_string())'
