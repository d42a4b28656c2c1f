#!/bin/bash
# Builds the harness crates once, so that the tool chain is known to work. Every check rebuilds what it needs from /repo.
set -e
cd "$(dirname "$0")"
python3 - <<'P'
import sys
sys.path.insert(0, "lib")
import vf, os
for w in ("core", "full", "cli"):
    b = vf.build(w)
    for x in (b, b + ".rustomata"):
        if os.path.exists(x):
            os.remove(x)
P
