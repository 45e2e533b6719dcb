#!/bin/bash
# Builds the executor and warms the dependency builds; every check rebuilds what changed.
cd "$(dirname "$0")" && exec python3 -c '
import sys
sys.dont_write_bytecode = True
import check
check.build()
'
