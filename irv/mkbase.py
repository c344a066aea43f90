"""records the local variable names of the functions under contract on the current tree (used only to re-attach
loop invariants after a rename); run by hand when contracts are added"""
import sys, os, json, tempfile, shutil, glob
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'specs'))
from driver import *
import importlib, props
for P in props.PROPS.values():
    for m in P['modules']:
        importlib.import_module(m)
tmp = tempfile.mkdtemp(prefix='irv')
files = sorted({f for c in REG.values() for f in c.files})
b = Build(files, tmp)
out = {}
for mod in {id(m): m for m in b.prog.mods}.values() if hasattr(b.prog, 'mods') else []:
    pass
for n, f in b.prog.funcs_any.items():
    try:
        out[n] = sorted(local_names(f))
    except Exception as e:
        pass
want = {c.fn for c in REG.values()}
json.dump({k: v for k, v in sorted(out.items()) if k in want or len(v) < 200}, open(BASELOC, 'w'), indent=0)
print(len(out))
shutil.rmtree(tmp)
