#!/bin/bash
# Builds the symbolic executor and warms the dependency builds (no repository-specific result is reused by a check).
cd "$(dirname "$0")" && exec python3 check.py --setup
