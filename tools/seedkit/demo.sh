#!/bin/bash
# run with cwd at the repository
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
g++ -std=gnu++14 -O1 -g FLAGS -I"$PWD/include" -I"$D" "$D/demo.cpp" -o "$T/demo" -pthread || exit 2
timeout 120 "$T/demo"
