import cProfile, pstats, sys
sys.argv=['run1.py']+sys.argv[1:]
sys.path.insert(0,'/verif/irv'); sys.path.insert(0,'/verif/specs')
sys.setrecursionlimit(20000)
from driver import *
import importlib
importlib.import_module(sys.argv[1])
import tempfile
c=REG[sys.argv[2]]
b=Build(c.files,tempfile.mkdtemp())
cProfile.run('x=run_once(c,b,"proof")','/tmp/prof')
pstats.Stats('/tmp/prof').sort_stats('cumtime').print_stats(25)
print(x.feas_calls, x.npaths)
