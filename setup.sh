#!/bin/sh
# Nothing to build: the checks compile /repo's sources on every run.
cd "$(dirname "$0")" && mkdir -p evidence && python3-vt -c 'import z3' && clang --version >/dev/null && gcc --version >/dev/null
