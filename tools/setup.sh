#!/bin/bash
# Nothing is installed: checks build from source on every run. This only
# verifies that the toolchain the checks need is present.
set -e
for t in g++ objcopy aarch64-linux-gnu-g++ arm-linux-gnueabihf-g++ qemu-aarch64 qemu-arm python3; do
  command -v $t >/dev/null || { echo "missing $t"; exit 1; }
done
mkdir -p "$(dirname "$0")/../evidence"
