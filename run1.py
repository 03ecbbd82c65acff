import sys, os, importlib, time
sys.path.insert(0, '/verif')
sys.setrecursionlimit(20000)
sys.dont_write_bytecode = True
from pyvc import core
from contracts import kit
pid = sys.argv[1]
importlib.import_module('contracts.' + pid.lower())
bad = 0
for name, f, opts in kit.GOALS[pid]:
    if len(sys.argv) > 2 and sys.argv[2] not in name: continue
    t = time.time()
    s = core.explore(name, f, **opts)
    d = sum(o.status == 'discharged' for o in s.obligations)
    print('%s | paths %d restarts %d obligations %d/%d %.1fs %s' % (name, s.paths, s.restarts, d, len(s.obligations), time.time() - t, dict(s.covers)))
    for o in s.failures[:5]:
        print('   FAIL', o.name, '|', o.detail[:900], '|', o.model, '|', o.where[-300:])
    for u in s.unsupported[:3]:
        print('   UNSUPPORTED', u)
print(vars(core.STATS))
