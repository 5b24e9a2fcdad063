#!/bin/bash
# Checks that the tools are there; the checks build what they need themselves.
set -e
cd "$(dirname "$0")/.."
for t in g++ cmake ninja python3; do command -v $t > /dev/null; done
mkdir -p evidence build replays
