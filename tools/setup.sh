#!/bin/bash
# nothing is built ahead of a check (each one rebuilds from /repo's working tree); this verifies the toolchain
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence
java -version 2>&1 | head -1
gcc --version | head -1
python3 -c 'import json, sys; json.load(open("MANIFEST.json")); print(sys.version)'
