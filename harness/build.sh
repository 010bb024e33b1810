#!/bin/bash
# Builds the harness from /repo's current working tree. usage: build.sh OUT [-race]
. /verif/env.sh
out=$1; shift
here=$(cd "$(dirname "$0")" && pwd)
ov=$(mktemp)
trap 'rm -f "$ov"' EXIT
python3 - "$here" > "$ov" <<'P'
import json,os,sys
d=sys.argv[1]
print(json.dumps({"Replace":{"/repo/internal/zz_verif/"+f:os.path.join(d,f) for f in sorted(os.listdir(d)) if f.endswith(".go")}}))
P
mkdir -p "$(dirname "$out")"
cd /repo && go build -overlay "$ov" "$@" -o "$out" ./internal/zz_verif
