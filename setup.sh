#!/bin/bash
# nothing to build ahead of time: every check compiles what it needs from /repo's current tree
set -e
command -v clang++-18 >/dev/null && command -v g++ >/dev/null && python3-vt -c 'import z3'
