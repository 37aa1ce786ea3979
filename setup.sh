#!/bin/bash
cd "$(dirname "$0")" || exit 2
mkdir -p evidence work
./build.sh && ./build.sh asan
