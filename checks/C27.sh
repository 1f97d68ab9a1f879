#!/bin/bash
# C27: random interface definitions, built by rustc and run
ROOT=$(cd "$(dirname "$0")/.." && pwd)
grep -E "^KNOWN-FINDING: property=C27 " "$ROOT/known_findings.txt"
exec python3 "$ROOT/defs/defs.py" "$ROOT" "$1" "$VERIF_SEED"
