"""plant a bug: python3 tools/plant.py ID [--norun]  — reads seeded/ID/edit.py (EDITS=[(file,old,new)]) from /tmp/plants/ID.py,
writes seeded/ID/patch.diff, confirms build/tests/demo in a scratch copy bound over /repo, runs the check."""
import sys, os, subprocess, json, shutil, importlib.util
ID = sys.argv[1]
V = '/verif'
S = '%s/seeded/%s' % (V, ID)
W = '/tmp/pl_' + ID
meta = json.load(open(S + '/meta.json'))
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(['cp', '-a', '/repo', W])
pf = S + '/patch.diff'
ed = '/tmp/plants/%s.py' % ID
if os.path.exists(ed):
    ns = {}
    exec(open(ed).read(), ns)
    for f, a, b in ns['EDITS']:
        t = open(os.path.join(W, f)).read()
        assert t.count(a) == 1, (f, t.count(a), a)
        open(os.path.join(W, f), 'w').write(t.replace(a, b))
    d = subprocess.check_output(['git', '-C', W, 'diff']).decode()
    open(pf, 'w').write(d)
else:
    subprocess.check_call(['git', '-C', W, 'apply', pf])
out = []
def sh(cmd, mount, t=900):
    if mount:
        cmd = "mount --bind %s /repo && cd /repo && (%s)" % (W, cmd)
        return subprocess.run(['unshare', '-m', 'sh', '-c', cmd], capture_output=True, text=True, timeout=t, errors='replace')
    return subprocess.run(['sh', '-c', 'cd /repo && (%s)' % cmd], capture_output=True, text=True, timeout=t, errors='replace')
if '--check' not in sys.argv:
    r = sh('bash /opt/vp/test.sh %s/res.json' % W, True)
    base = set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
    got = set(json.load(open(W + '/res.json'))['passed'])
    miss = base - got
    print(ID, 'tests:', 'all stable pass' if not miss else 'BROKEN %s' % sorted(miss)[:5])
    dd = '/tmp/demo_%s' % ID
    shutil.rmtree(dd, ignore_errors=True)
    shutil.copytree(S, dd, ignore=shutil.ignore_patterns('*.diff', 'meta.json'))
    a = sh('bash %s/demo.sh' % dd, False)
    b = sh('bash %s/demo.sh' % dd, True)
    print(ID, 'demo unchanged rc', a.returncode, a.stdout[-200:].strip(), '| patched rc', b.returncode, b.stdout[-200:].strip(), b.stderr[-200:].strip() if b.returncode > 1 else '')
    shutil.rmtree(dd, ignore_errors=True)
    print(ID, 'COUNTS' if not miss and a.returncode == 0 and b.returncode else 'DOES NOT COUNT')
env = dict(os.environ, IRV_REPO=W, IRV_OUT='/tmp/plout_' + ID)
r = subprocess.run(['./check', meta['property']], cwd=V, env=env, capture_output=True, text=True)
print(ID, 'check rc', r.returncode)
print('\n'.join(r.stdout.strip().split('\n')[-12:]))
shutil.rmtree(W, ignore_errors=True)
