#!/bin/bash
# Compiles the Java overrides (exact rational arithmetic for TLC) into build/.
set -e
cd "$(dirname "$0")"
python3 -c "import sys; sys.path.insert(0, 'harness'); import driver; print(driver.ensure_build())"
