#!/bin/bash
# Builds nothing the checks depend on: every check builds from /repo's current tree.
# Only makes sure that the tools are there.
set -e
for t in python3 cargo verus; do command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
unset RUSTUP_TOOLCHAIN
cargo kani --version
verus --version | head -2
