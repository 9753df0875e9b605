#!/bin/sh
# builds the driver once, so that a broken toolchain shows here and not in a check
cd "$(dirname "$0")" && exec python3 -c "
import sys; sys.path.insert(0, \"gen\")
import runner; print(runner.build())"
