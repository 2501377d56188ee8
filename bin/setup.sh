#!/bin/bash
# Warms the Go build cache and checks that the tools are there. Nothing depends on what it leaves behind.
cd "$(dirname "$0")/.." || exit 1
python3 - <<'P' || exit 1
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, "lib")
import vlib
vlib.build_driver()
P
java -version >/dev/null 2>&1 || exit 1
echo "setup done"
