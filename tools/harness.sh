#!/bin/bash
# compiles and runs every replay harness (or those named) on the current tree: all must stay silent (development aid)
cd /verif/vlib
python3-vt - "$@" <<'P'
import sys; sys.path.insert(0,'/verif'); sys.path.insert(0,'/verif/vlib')
import registry, check
from multiprocessing import Pool
ids=sys.argv[1:] or list(registry.REG)
def run(i):
    units,_=registry.get(i)
    return i, check.replay(registry.REG[i][2], any(u.boost for u in units), i)
with Pool(8) as ex:
    for i,(f,t) in ex.imap(run, ids):
        print(i, 'FOUND' if f else ('ok ' if 'no failing input among' in t else 'BROKEN'), t[-300:].strip().replace('\n',' | '))
P
