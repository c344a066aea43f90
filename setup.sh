#!/bin/sh
# nothing to build: the verifier is Python (python3-vt) driving the installed clang, z3 and cvc5
cd "$(dirname "$0")" || exit 1
mkdir -p evidence out
python3-vt -c "import z3" || exit 1
command -v clang >/dev/null || exit 1
exit 0
