#!/bin/bash
# Builds the demonstration against the sources in the current directory.
set -e
here="$(cd "$(dirname "$0")" && pwd)"
out="$(mktemp -d)"
trap 'rm -rf "$out"' EXIT
g++ -std=c++20 -w -O0 -I"$PWD/include" -I"$PWD/src" -I"$here" "$here/demo.cpp"  -o "$out/demo" -pthread
timeout 120 "$out/demo"
