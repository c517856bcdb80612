#!/bin/bash
# Smoke test of the toolchain; every check builds what it needs itself.
set -e
cd "$(dirname "$0")"
clang++ --version | head -1
python3 --version
mkdir -p evidence replays
