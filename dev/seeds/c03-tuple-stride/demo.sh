#!/bin/bash
# run with cwd = the repository; builds demo.cpp against it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; W=$(mktemp -d); trap 'rm -rf "$W"' EXIT
g++-14 -std=gnu++23 -O0 -w -fopenmp -include "$R/image_operations.h" -isystem /usr/include/opencv4 "$D/demo.cpp"  -o "$W/demo" -ltbb > "$W/log" 2>&1 || { grep -a error: "$W/log" | head -5; exit 3; }
cd "$W" && timeout 120 ./demo
