import sys, time, os, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'specs'))
sys.setrecursionlimit(20000)
from driver import *
import importlib
mods = sys.argv[1].split(',')
labels = sys.argv[2].split(',') if len(sys.argv) > 2 else None
mode = sys.argv[3] if len(sys.argv) > 3 else 'proof'
for m in mods:
    importlib.import_module(m)
labels = labels if labels and labels[0] else list(REG)
tmp = tempfile.mkdtemp(prefix='irv')
files = sorted({f for l in labels for f in REG[l].files})
b = Build(files, tmp)
if b.errors: print(b.errors)
for l in labels:
    if mode == 'decide':
        r = decide_contract(REG[l], b, jobs=8)
    else:
        r = run_contract(REG[l], b, mode, jobs=8)
    n = len(r.obls)
    print('%-40s %-10s %s obls=%d triv=%d cover=%d paths=%d time=%.1f solver=%.1f' % (l, r.status, r.mode, n, sum(1 for o in r.obls if o[2]=='simplify'), r.covers, r.paths, r.time, r.solver_time))
    if r.error: print('   ', r.error)
    slow = sorted(r.obls, key=lambda o: -o[3])[:3]
    print('    slow', [(o[0], o[3]) for o in slow], 'inlined', r.inlined, 'contracts', r.contracts_used)
    for f in r.failed[:6]:
        print('   FAIL', f['status'], f['name'], '@', f['where'])
        if os.environ.get('VERB'):
            print('     trace', f['trace'][-14:])
            print('     goal', f['goal'][:600])
            print('     ', f['model'][:1500].replace('\n', '\n      '))
import shutil
shutil.rmtree(tmp)
