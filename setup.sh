#!/bin/sh
# Builds the harness once (every check builds it again from /repo's working tree).
cd "$(dirname "$0")" && python3 - <<'P'
import sys; sys.path.insert(0, "tools")
import vf; from checks import CHECKS
for f in sorted({s.get("flavour", "dev") for c in CHECKS.values() for s in c["steps"]}): print(vf.build(f))
P
