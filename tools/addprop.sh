#!/bin/bash
# addprop.sh FILE: adds the entry of FILE to props_src.py and regenerates
cd "$(dirname "$0")/.." && python3 - "$1" <<'P'
import sys
p='tools/props_src.py'
s=open(p).read()
s=s.replace("NOT_APPLICABLE = []",open(sys.argv[1]).read()+"NOT_APPLICABLE = []",1)
open(p,'w').write(s)
P
python3 tools/gen.py && python3 tools/known.py
