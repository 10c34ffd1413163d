#!/bin/bash
# developer helper: dump IR of a witness.  try.sh FILE [cfg] -> /tmp/w/FILE.ll
set -e
f=$1; c=${2:-std_stop}; cd /verif
python3 - "$f" "$c" <<'PY'
import sys; sys.path.insert(0,'/verif/engine')
from vlib import *
import os
ck=Check('X')
os.environ['IRX_LL']='/tmp/w/%s.%s.ll'%(sys.argv[1],sys.argv[2])
f=ck.ir(sys.argv[1],HANDLE_PRIMS,configs=[sys.argv[2]],entries=('^w_',))
for n,x in f[sys.argv[2]].items(): print(n,x.coro,sum(len(b) for b in x.blocks))
PY
