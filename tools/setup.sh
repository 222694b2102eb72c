#!/bin/bash
# Builds the drivers from /repo's current tree (the checks rebuild when it changes).
cd "$(dirname "$0")/.." && exec python3 tools/setup.py
