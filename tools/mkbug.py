#!/usr/bin/env python3
"""mkbug.py ID: (re)create seeded/ID/patch.diff from seeded/ID.edit.py-style JSON on stdin:
{"property","needs","what_it_breaks","edits":[[file,old,new],...],"demo":"python source"}"""
import sys, json, subprocess, os, shutil
bid = sys.argv[1]
spec = eval(sys.stdin.read())
wt = '/tmp/mkbug'
shutil.rmtree(wt, True)
subprocess.check_call(['git', '-C', '/repo', 'worktree', 'prune'])
subprocess.check_call(['git', 'clone', '-q', '-s', '/repo', wt])
for f, old, new in spec['edits']:
    p = os.path.join(wt, f); s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old), old)
    open(p, 'w').write(s.replace(old, new))
d = '/verif/seeded/' + bid
os.makedirs(d, exist_ok=True)
open(d + '/patch.diff', 'w').write(subprocess.check_output(['git', '-C', wt, 'diff'], text=True))
shutil.rmtree(wt)
json.dump({k: spec[k] for k in ('property', 'needs', 'what_it_breaks')}, open(d + '/meta.json', 'w'), indent=1)
open(d + '/demo.py', 'w').write(spec['demo'])
shutil.copy('/verif/tools/demolib.py', d + '/lib.py')
open(d + '/demo.sh', 'w').write('#!/bin/bash\nexec python3 -B "$(dirname "$0")/demo.py"\n')
