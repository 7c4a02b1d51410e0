#!/usr/bin/env python3
"""setup_cmd: compile everything the checks use, so that each check only recompiles what changed."""
import os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(V, 'harness'))
sys.dont_write_bytecode = True
import build as B
t = set(B.CLI) | {'drive', 'lmplz'}
if os.path.exists(os.path.join(B.HARNESS, 'sched', 's_main.cc')):
    t |= {'sched', 'dsched'}
for k, v in sorted(B.build(t).items()):
    print(k, v)
