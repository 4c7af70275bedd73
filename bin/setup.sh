#!/bin/bash
# Nothing has to be installed: every check builds what it needs. Verify that the tools are there.
set -e
command -v clang++ >/dev/null
command -v python3 >/dev/null
mkdir -p "$(dirname "$0")/../evidence"
echo 'int main(){}' | clang++ -std=c++17 -x c++ - -o /dev/null
echo setup ok
