#!/bin/bash
# Builds the MIR driver once; every check rebuilds the rest from /repo's current tree (and the driver, if it is missing).
cd "$(dirname "$0")" && python3-vt -c "
import sys; sys.dont_write_bytecode = True
from vf import build
print(build.driver())"
