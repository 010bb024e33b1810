#!/bin/bash
# Warms the build cache of the extractor.
. /verif/env.sh
cd /verif/gossa && PATH=/opt/veriftools/go1.27.3/bin:$PATH go build -o "${1:-/verif/.build/ssa.json}.bin" . && rm -f "${1:-/verif/.build/ssa.json}.bin"
