#!/bin/bash
# Build the fact extractor and warm the dependency check build (offline).
set -e
cd "$(dirname "$0")"
mkdir -p evidence build
python3-vt - <<'PY'
import sys; sys.path.insert(0, ".")
from sa import facts
facts.build_driver()
try:
    facts.extract()
except facts.FactsError as e:
    print("warm-up: %s" % e)
PY
