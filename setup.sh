#!/bin/bash
# everything is either installed (frama-c, clang, LLVM) or built on first use
cd "$(dirname "$0")" || exit 2
command -v frama-c >/dev/null && command -v clang >/dev/null || { echo "frama-c or clang missing"; exit 2; }
mkdir -p evidence
python3 -B -c "import sys; sys.path.insert(0, 'lib'); import props; props.setup()"
