#!/bin/bash
# nothing to install: python3, meson, ninja and TLC are part of the sandbox; warm the build of the current tree
cd "$(dirname "$0")" && mkdir -p evidence replay && python3 -c "
import sys; sys.path.insert(0,'lib'); import vlib; vlib.build()"
