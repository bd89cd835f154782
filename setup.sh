#!/bin/bash
# nothing is built ahead: every check builds /repo's tree itself; this only checks that the tools are there
cd "$(dirname "$0")" || exit 1
for t in java node cargo cpp python3; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3 -c 'import sys; sys.path.insert(0, "harness"); import cparse; cparse.parse("int main(void) { return 0; }")' || exit 1
python3 -c 'import sys; sys.path.insert(0, "harness"); import lib; lib.build()'
