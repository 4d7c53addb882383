#!/bin/sh
# Nothing is cached between runs: every check rebuilds what it needs from /repo. This only verifies the tools are present.
set -e
cd "$(dirname "$0")/.."
cargo kani --version
cbmc --version
clang++ --version | head -1
python3 -c 'import sys; sys.path.insert(0, "bin"); import engines; print(len(engines.PROPERTIES), "properties")'
