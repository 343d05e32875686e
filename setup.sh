#!/bin/bash
# builds the native drivers and warms the expansion cache; every check rebuilds what it needs by itself
cd "$(dirname "$0")" || exit 1
python3 - <<'P'
import sys
sys.path.insert(0, 'tools')
import engine
for c in ('marshalable', 'base', 'tpm2', 'client', 'impl', 'shapes'):
    engine.expanded(c)
import checks
for c in checks.NATIVE_CRATES:
    b, why = engine.native_build(c)
    print(c, b or why)
P
exit 0
