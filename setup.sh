#!/bin/bash
# nothing to build: the verifier is Python; check that its tools are there
cd "$(dirname "$0")" || exit 1
python3-vt -c 'import z3; import dv.check' && clang --version >/dev/null && opt --version >/dev/null && llvm-link --version >/dev/null && mkdir -p evidence replays
