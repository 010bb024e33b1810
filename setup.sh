#!/bin/bash
# Warms the build cache and checks that the tools are there; every check builds what it needs on its own, too.
. /verif/env.sh
set -e
mkdir -p /verif/.build /verif/evidence
bash /verif/gocv/extract.sh /verif/.build/ssa.json 2>/dev/null || true
bash /verif/harness/build.sh /verif/.build/vh
python3-vt -c 'import z3; print("z3", z3.get_version_string())'
