#!/bin/bash
# builds the analysis driver and the dependencies' metadata (checks do this themselves when it is missing)
cd "$(dirname "$0")" && python3 -c '
import shutil, sys
sys.path.insert(0, "sa")
import build
shutil.rmtree(build.dump(sys.argv[1]))
' "$PWD"
