"""python3-vt tools/prof.py PID ENTRY: where the verifier spends its time on one contract."""
import sys, os, cProfile, pstats
sys.path.insert(0, '/verif')
from vf import build, spec, check
pid, entry = sys.argv[1:3]
wd = build.workdir(pid + 'prof' + entry)
inc = build.config(wd)
spec.generate(inc)
m = check.load_prop(pid)
i = [n for n, c in enumerate(m.CONTRACTS) if c.entry == entry][0]
c = m.CONTRACTS[i]
js = build.ir(wd, inc, c.harness or pid, c.flags)
p = cProfile.Profile()
p.enable()
r = check.verify(pid, i, js, 'quick', int(os.environ.get('TB', 600)))
p.disable()
print(r['incomplete'])
print(r['status'], r['wall'], r['paths'], r['queries'], r['solver_time'], r['incomplete'][:3])
for o in r['obligations']:
    if o['time'] > 1 or o['status'] != 'proved':
        print(o['name'], o['where'], o['status'], o['time'], o['paths'])
for k, v in r['invariants'].items():
    print(k, v) if os.environ.get('INV') else None
pstats.Stats(p).sort_stats('cumtime').print_stats(45)
