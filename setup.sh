#!/bin/bash
# Nothing is installed: warms Go's build cache with the harness and its
# standard library overlay, so that the first check need not.
cd "$(dirname "$0")" || exit 1
exec python3 -B -c '
import sys; sys.path.insert(0, ".")
from vp import core
core.build_harness()
r = core.tlc_ok("MCTag", env={"OUT": core.scratch() + "/x"})
print("ready:", r.distinct, "states")'
