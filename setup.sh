#!/bin/bash
# nothing to install: the verifier is Python and runs with python3-vt; fail early if a tool is missing
set -e
cd "$(dirname "$0")"
for t in clang++ llvm-link opt llvm-objcopy c++filt python3-vt; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3-vt -c 'import z3, sys; sys.path.insert(0, "."); import virc.driver, virc.units, virc.sym; print("z3", z3.get_version_string())'
mkdir -p evidence
