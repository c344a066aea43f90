"""check <PROPERTY>: decides one property by discharging all its contracts on /repo's current source."""
import sys, os, time, json, tempfile, shutil, subprocess, glob, re
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(HERE, '..', 'specs'))
sys.setrecursionlimit(20000)
from driver import *
import importlib
import props

WIT = os.path.join(VERIF, 'witness')
OUT = os.environ.get('IRV_OUT') or os.path.join(VERIF, 'out')
EVID = os.environ.get('IRV_OUT') or os.path.join(VERIF, 'evidence')


def repo_sources():
    """C sources linked into the prover, from compile.sh of the current tree"""
    t = open(os.path.join(REPO, 'compile.sh')).read()
    m = t[t.index('-o gkc'):]
    m = m[:m.index('-lm')]
    return [w for w in re.findall(r'(\S+\.c)\b', m) if not w.startswith('Main/')]


class Native:
    """objects of the real code for the replay/bounded harnesses"""

    def __init__(self, tmp):
        self.tmp = tmp
        self.objs = {}
        self.built = {}
        srcs = repo_sources()
        running = []
        todo = list(srcs)
        self.err = ''
        while todo or running:
            while todo and len(running) < NCPU:
                s = todo.pop(0)
                o = os.path.join(tmp, s.replace('/', '__')[:-2] + '.o')
                running.append((s, o, subprocess.Popen(['gcc', '-O1', '-g', '-w', '-ffunction-sections', '-c', '-I', REPO, '-o', o, os.path.join(REPO, s)], cwd=REPO,
                                                       stderr=subprocess.PIPE)))
            s, o, p = running.pop(0)
            e = p.communicate()[1]
            if p.returncode:
                self.err += '%s: %s\n' % (s, e.decode(errors='replace')[-500:])
            self.objs[s] = o

    def exe(self, harness):
        if harness not in self.built:
            self.built[harness] = self.build(harness)
        return self.built[harness]

    def build(self, harness):
        src = os.path.join(WIT, harness + '.c')
        text = open(src).read()
        inc = re.findall(r'^#include "REPO/([^"]+\.c)"', text, re.M)
        text = text.replace('"REPO/', '"%s/' % REPO)
        c = os.path.join(self.tmp, harness + '.c')
        with open(c, 'w') as f:
            f.write(text)
        exe = os.path.join(self.tmp, harness)
        flags = ' '.join(re.findall(r'^/\* link: (.*?) \*/', text, re.M)).split()
        objs = [o for s, o in self.objs.items() if s not in inc]
        r = subprocess.run(['gcc', '-O1', '-g', '-w', '-Werror=implicit-function-declaration', '-ffunction-sections', '-Wl,--gc-sections', '-I', REPO, '-I', WIT, '-o', exe, c] + objs + flags + ['-lm'], capture_output=True, text=True,
                           cwd=REPO)
        if r.returncode:
            raise RuntimeError('harness %s does not build: %s' % (harness, r.stderr[-1500:]))
        return exe


def run_witness(nat, harness, args, secs):
    exe = nat.exe(harness)
    d = tempfile.mkdtemp(prefix='irvrun')
    try:
        r = subprocess.run([exe, str(SEED), str(secs)] + list(args), capture_output=True, text=True, timeout=secs * 2 + 30, cwd=d,
                           errors='replace')
        out = r.stdout[-6000:]
        if r.returncode == 1 and 'FAIL' in out:
            return 'fail', out
        if r.returncode < 0:
            return 'fail', out + '\nFAIL: crashed with signal %d\n%s' % (-r.returncode, r.stderr[-1500:])
        if r.returncode == 0:
            return 'ok', out
        return 'error', out + r.stderr[-1500:]
    except subprocess.TimeoutExpired as e:
        o = (e.stdout or b'')
        return 'fail', (o.decode(errors='replace') if isinstance(o, bytes) else o)[-3000:] + '\nFAIL: does not terminate within %ds' % (secs * 2 + 30)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    pid = sys.argv[1]
    P = props.PROPS[pid]
    t0 = time.time()
    for m in P['modules']:
        importlib.import_module(m)
    labels = [l for l in P['contracts'] if TIER == 'thorough' or REG[l].tier == 'quick']
    tmp = tempfile.mkdtemp(prefix='irv')
    os.makedirs(OUT, exist_ok=True)
    os.makedirs(EVID, exist_ok=True)
    code = 0
    try:
        code = decide(pid, P, labels, tmp, t0)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(code)


def decide(pid, P, labels, tmp, t0):
    files = sorted({f for l in labels for f in REG[l].files})
    b = Build(files, tmp)
    if b.errors:
        print('source does not compile:', b.errors[0])
        return 2
    res = run_pool(labels, b, phase='proof', until=t0 + (480 if TIER == 'quick' else 3000))
    known = [k for k in json.load(open(os.path.join(VERIF, 'known_findings.json'))) if k.get('property') == pid and k.get('status') == 'known']
    nat = None
    wit = []
    nonproof = [r for r in res.values() if r.status != 'ok' or r.mode != 'proof']
    hs = list(P.get('witness', []))
    always = list(P.get('bounded', []))
    violation = None
    secs = 20 if TIER == 'quick' else 120
    run_h = [(h, 'bounded') for h in always] + ([(h, 'replay') for h in hs if h not in always] if nonproof else [])
    if run_h:
        nat = Native(tmp)
        from concurrent.futures import ThreadPoolExecutor

        def one(hw):
            h, why = hw
            hn = h.split(':')
            try:
                st, out = run_witness(nat, hn[0], hn[1:], secs)
            except RuntimeError as e:
                st, out = 'error', str(e)
            return h, why, st, out
        exes = {}
        for h, why in run_h:
            try:
                exes[h.split(':')[0]] = nat.exe(h.split(':')[0])
            except RuntimeError:
                pass
        with ThreadPoolExecutor(NCPU) as ex:
            wit = list(ex.map(one, run_h))
    failing_input = next(((h, out) for h, why, st, out in wit if st == 'fail'), None)
    todo = [l for l in labels if res[l].status != 'ok']
    if todo and not failing_input:
        # no failing input: bounded stand-in of the contracts that were not proved
        res.update(run_pool(todo, b, phase='bounded', firsts={l: res[l] for l in todo}, until=t0 + (780 if TIER == 'quick' else 6000)))
    bad = [r for r in res.values() if r.status != 'ok']
    nonproof = [r for r in res.values() if r.status != 'ok' or r.mode != 'proof']
    hard = [r for r in bad if r.status == 'failed' and any(f['status'] == 'sat' for f in r.failed)]
    # known findings: obligations listed by name on the current tree
    knames = {k['obligation'] for k in known if 'obligation' in k}
    kn_printed = []
    if failing_input or hard:
        names = []
        for r in nonproof:
            for f in r.failed:
                names.append(f['name'])
            for h in getattr(r, 'history', []):
                names += [f['name'] for f in h.failed]
        unlisted = [n for n in names if n not in knames]
        if failing_input or unlisted:
            rp = os.path.join(OUT, 'replay_%s.txt' % pid)
            with open(rp, 'w') as f:
                f.write('property %s\n' % pid)
                for r in nonproof:
                    for rr in [r] + list(getattr(r, 'history', [])):
                        f.write('\ncontract %s mode %s status %s %s\n' % (rr.label, rr.mode, rr.status, rr.error))
                        seen = set()
                        for o in rr.failed:
                            if o['name'] in seen:
                                continue
                            seen.add(o['name'])
                            f.write('  FAILED OBLIGATION %s (%s)\n    at %s\n    path %s\n    goal %s\n    counterexample:\n      %s\n' % (
                                o['name'], o['status'], o['where'], ' > '.join(o['trace'][-20:]), o['goal'][:800],
                                o['model'].replace('\n', '\n      ')))
                for h, why, st, out in wit:
                    f.write('\nnative run of the real code, harness witness/%s.c seed %d (%s): %s\n%s\n' % (h.split(':')[0], SEED, why, st, out))
            violation = rp
            uniq = list(dict.fromkeys(names))
            for n in uniq[:8]:
                print('failed obligation: %s' % n)
            if failing_input:
                print('failing input (real code, harness %s): %s' % (failing_input[0], failing_input[1].strip().split('\n')[-1][:400]))
    for k in known:
        if 'harness' in k or 'obligation' in k:
            print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    write_evidence(pid, P, labels, res, b, wit, t0, violation)
    for l in labels:
        r = res[l]
        print('%-44s %-11s %-8s obligations %d discharged %d  %.1fs %s' % (
            l, r.status, r.mode, len(r.obls), sum(1 for o in r.obls if o[1] == 'unsat'), r.time, r.error.split('\n')[0] if r.error else ''))
    for h, why, st, out in wit:
        print('native %s (%s): %s %s' % (h, why, st, out.strip().split('\n')[-1][:200]))
    if violation:
        print('VIOLATION property=%s replay=%s%s' % (pid, violation, '' if failing_input else ' no-failing-input-found'))
        return 1
    und = [r for r in bad]
    if und:
        print('undecided (tool limit, not a violation): ' + ', '.join('%s[%s]' % (r.label, r.status) for r in und))
    print('property %s held on everything explored (%.1fs)' % (pid, time.time() - t0))
    return 0


def write_evidence(pid, P, labels, res, b, wit, t0, violation):
    ob = dis = 0
    by = {}
    st = 0.0
    funcs = []
    bounded = []
    und = []
    assumptions = []
    inl, ext, noop, used = set(), set(), set(), set()
    for l in labels:
        r = res[l]
        st += r.solver_time
        if r.mode == 'proof':
            ob += len(r.obls)
            d = sum(1 for o in r.obls if o[1] == 'unsat')
            dis += d
            for o in r.obls:
                if o[1] == 'unsat':
                    by[o[2]] = by.get(o[2], 0) + 1
        names = {}
        for o in r.obls:
            names[o[0]] = names.get(o[0], 0) + 1
        ent = {'contract': l, 'function': REG[l].fn, 'file': REG[l].file, 'status': r.status, 'mode': r.mode, 'obligations': len(r.obls),
               'discharged': sum(1 for o in r.obls if o[1] == 'unsat'), 'by_name': names, 'paths': r.paths, 'reachable_returns_checked': r.covers,
               'seconds': round(r.time, 2), 'solver_seconds': round(r.solver_time, 2), 'callee_contracts_used': r.contracts_used,
               'callees_inlined': r.inlined}
        if r.error:
            ent['error'] = r.error[-700:]
        funcs.append(ent)
        if r.mode == 'bounded':
            bounded.append('%s: loops unrolled %d times, status %s (not counted as proved)' % (l, REG[l].unroll, r.status))
        if r.status != 'ok':
            und.append(l)
        assumptions += r.assumptions
        inl |= set(r.inlined)
        ext |= set(r.ext)
        noop |= set(r.noop)
        used |= set(r.contracts_used)
    proved_labels = {REG[l].fn for l in labels}
    assumed = sorted(n for n in used if n not in proved_labels)
    trusted = ['clang 18 -O0 front end (the verified text is the LLVM IR of the real source files)',
               'irv verification-condition generator (/verif/irv)', 'z3 5.3 / cvc5 1.1.2',
               'library models: ' + ', '.join(sorted(ext)) if ext else 'no library models used',
               'printing/diagnostic calls treated as no-ops: ' + ', '.join(sorted(noop)) if noop else 'no calls skipped']
    if assumed:
        trusted.append('callee contracts used here but discharged under another property or assumed: ' + ', '.join(
            '%s%s' % (n, '' if n in REG else ' (assumed)') for n in assumed))
    cov = {'obligations': ob, 'discharged': dis, 'checker_cmd': './check %s' % pid, 'trusted_base': trusted,
           'functions_under_contract': funcs, 'discharged_by': by, 'solver_seconds': round(st, 2), 'sources': b.sources,
           'callees_inlined': sorted(inl), 'bounded_standins': bounded + ['native %s (%s): %s' % (h, why, s) for h, why, s, o in wit],
           'undecided': und, 'native_runs': [{'harness': h, 'why': why, 'status': s, 'summary': o.strip().split('\n')[-1][:300]} for h, why, s, o in wit]}
    ev = {'property': pid, 'tier': TIER if TIER in ('quick', 'thorough') else 'quick', 'seed': SEED, 'level': 'proof', 'coverage': cov,
          'assumptions': list(dict.fromkeys(assumptions + P.get('assumptions', []))), 'wall_s': round(time.time() - t0, 2),
          'violations': 1 if violation else 0}
    with open(os.path.join(EVID, pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)


if __name__ == '__main__':
    main()
