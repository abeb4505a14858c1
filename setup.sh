#!/bin/bash
# builds the compiler driver and the crate's dependencies for the analysis
cd "$(dirname "$(readlink -f "$0")")" || exit 1
python3 - <<'P'
import sys; sys.path.insert(0, 'gsa')
import fresh, os
p = fresh.dump()
print('driver and dependencies ready;', os.path.getsize(p), 'bytes dumped')
os.remove(p)
P
