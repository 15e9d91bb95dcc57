#!/usr/bin/env python3
"""plant.py ID PROPERTY FILE <<'old ---- new' : writes seeded/ID/patch.diff from a textual replacement (never commits in /repo)."""
import json, subprocess, sys, os
sid, prop, needs, breaks = sys.argv[1:5]
d = '/verif/seeded/' + sid
os.makedirs(d, exist_ok=True)
for blk in sys.stdin.read().split('\n@@@@ ')[0:]:
    if not blk.strip():
        continue
    if blk.startswith('@@@@ '):
        blk = blk[5:]
    f, rest = blk.split('\n', 1)
    old, new = rest.split('\n----\n')
    new = new.rstrip('\n')
    p = '/repo/' + f.strip()
    s = open(p).read()
    assert s.count(old) == 1, (f, s.count(old))
    open(p, 'w').write(s.replace(old, new))
diff = subprocess.run(['git', '-C', '/repo', 'diff'], capture_output=True, text=True).stdout
open(d + '/patch.diff', 'w').write(diff)
subprocess.run(['git', '-C', '/repo', 'checkout', '-q', '--', '.'])
json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
print(diff)
