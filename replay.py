#!/usr/bin/env python3
"""replay.py FILE: rebuilds from /repo and re-executes the recorded case exactly. Exit 1 if the violation reproduces, 0 if not."""
import json, os, sys, importlib
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), 'sim'))
sys.dont_write_bytecode = True
import frame, build
d = json.load(open(sys.argv[1])); mod = importlib.import_module('props.' + d['property'])
exes = build.build(mod.PROGS)
sigs, trace, o = frame.replay_case(exes, mod, frame.dec(d['case']))
for x in o.v: print(x['sig'], '\n   ', x['msg'])
print('trace %s the recorded one' % ('identical to' if trace == d['trace'] else 'differs from'))
if d['sig'] in sigs:
    print('VIOLATION property=%s replay=%s' % (d['property'], os.path.abspath(sys.argv[1]))); sys.exit(1)
print('not reproduced'); sys.exit(0)
