#!/bin/bash
# Warms the build cache; the checks build everything they need themselves.
set -e
cd "$(dirname "$0")/.."
test -f /opt/veriftools/tla/tla2tools.jar
java -version >/dev/null 2>&1
mkdir -p evidence/replay
work=$(mktemp -d)
trap 'rm -rf "$work"' EXIT
python3 - "$work" <<'P'
import sys
sys.path.insert(0, "bin")
import check
r = check.Run("C01", sys.argv[1])
r.build()
P
echo "setup ok"
