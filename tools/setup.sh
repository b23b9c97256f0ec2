#!/bin/bash
# Nothing has to be installed: check the tools the checks use, and warm the build cache.
set -e
cd "$(dirname "$0")/.."
mkdir -p build work replays evidence
command -v java >/dev/null
command -v g++-12 >/dev/null || command -v g++ >/dev/null
test -f /opt/veriftools/tla/tla2tools.jar
python3 - <<'P'
import sys
sys.path.insert(0, "tools")
import vlib
from registry import CHECKS
by = {}
for c in CHECKS.values():
    for p in c["parts"]:
        by.setdefault(p.get("san"), set()).add(p["topic"])
for san, topics in by.items():
    vlib.build(sorted(topics), san)
P
echo "setup ok"
