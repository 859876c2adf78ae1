#!/bin/bash
# builds the compiler driver (the checks build it themselves when it is missing)
set -e
cd "$(dirname "$0")/.."
mkdir -p .build evidence
export LD_LIBRARY_PATH="$(rustc +nightly --print sysroot)/lib"
rustc +nightly -O --edition 2024 driver/main.rs -o .build/driver
python3 -m py_compile analysis/*.py
