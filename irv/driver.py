"""Runs contracts: extracts IR from /repo's current sources, generates obligations, discharges them."""
import os, sys, time, json, hashlib, subprocess, itertools, tempfile, traceback, pickle, re, signal, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import z3
import llparse, symex
from symex import X, State, Program, AttachError, Unsupported, DeadPath, LoopSpec, Ptr, NULL, bv, boolv

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('IRV_REPO', '/repo')
TIER = os.environ.get('VERIF_TIER', 'quick')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
NCPU = int(os.environ.get('IRV_JOBS', '8'))
CLANG = shutil.which('clang') or shutil.which('clang-18') or 'clang'
CLANG_FLAGS = ['-O0', '-w', '-S', '-emit-llvm', '-fno-discard-value-names', '-Xclang', '-disable-O0-optnone']


def defines():
    return []


class Build:
    """IR extraction of the sources a check needs, from the current working tree, on every run."""

    def __init__(self, files, tmp):
        self.tmp = tmp
        self.prog = Program()
        self.sources = {}
        self.errors = []
        procs = []
        for f in files:
            src = os.path.join(REPO, f)
            out = os.path.join(tmp, f.replace('/', '__') + '.ll')
            p = subprocess.Popen([CLANG] + CLANG_FLAGS + defines() + ['-I', REPO, '-o', out, src], cwd=REPO,
                                 stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            procs.append((f, out, p))
        for f, out, p in procs:
            o, _ = p.communicate()
            if p.returncode:
                self.errors.append('%s: %s' % (f, o.decode(errors='replace')[-2000:]))
                continue
            self.prog.add(llparse.Module(open(out).read(), f))
            self.sources[f] = hashlib.sha256(open(os.path.join(REPO, f), 'rb').read()).hexdigest()

    def probe(self, header, exprs):
        """constants of the current sources: evaluates C integer expressions against the headers"""
        key = hashlib.md5((header + repr(exprs)).encode()).hexdigest()
        done = os.path.join(self.tmp, 'probe_%s.json' % key)
        if os.path.exists(done):
            return json.load(open(done))
        c = os.path.join(tempfile.mkdtemp(dir=self.tmp), 'probe.c')
        with open(c, 'w') as f:
            f.write('#include <stdio.h>\n#include <stddef.h>\n%s\nint main(void){\n' % header)
            for e in exprs:
                f.write('printf("%%lld\\n",(long long)(%s));\n' % e)
            f.write('return 0;}\n')
        exe = c[:-2]
        subprocess.check_call([CLANG, '-w', '-O0', '-I', REPO, '-I', os.path.join(REPO, 'Reasoner'), '-o', exe, c], cwd=self.tmp)
        out = subprocess.check_output([exe]).decode().split()
        r = dict(zip(exprs, [int(x) for x in out]))
        with open(c + '.json', 'w') as f:
            json.dump(r, f)
        os.rename(c + '.json', done)
        return r


class Contract:
    def __init__(self, fn, file, run, files=(), props=(), unroll=3, timeout=None, note='', tier='quick', level='proved',
                 label=None, alt_unroll=None):
        self.fn = fn
        self.file = file
        self.files = [file] + [f for f in files if f != file]
        self.run = run
        self.props = props
        self.unroll = unroll
        self.timeout = timeout or 240
        self.note = note
        self.tier = tier
        self.level = level
        self.label = label or fn


REG = {}


def contract(fn, file, **kw):
    def deco(f):
        c = Contract(fn, file, f, **kw)
        assert c.label not in REG, c.label
        REG[c.label] = c
        return f
    return deco


# ------------------------------------------------------------------ spec functions
class Defs:
    """Auto-instantiation of spec-function definitions / proved lemmas.

    rules[decl name] = callback(app args...) -> iterable of closed formulas valid for every value of the args."""

    def __init__(self):
        self.rules = {}

    def rule(self, decl, cb):
        self.rules.setdefault(decl.name(), []).append(cb)

    def close(self, forms, fuel=3, limit=4000):
        out = []
        seen_app = set()
        seen_node = set()
        keep = []
        frontier = list(forms)
        for rnd in range(fuel):
            apps = []
            for f in frontier:
                st = [f]
                while st:
                    x = st.pop()
                    i = x.get_id()
                    if i in seen_node:
                        continue
                    seen_node.add(i)
                    keep.append(x)
                    if z3.is_quantifier(x):
                        continue
                    if z3.is_app(x):
                        n = x.decl().name()
                        if n in self.rules and i not in seen_app:
                            seen_app.add(i)
                            apps.append(x)
                        st.extend(x.children())
            new = []
            for a in apps:
                for cb in self.rules[a.decl().name()]:
                    for inst in cb(*a.children()) or ():
                        inst = boolv(inst)
                        if not z3.is_true(inst):
                            new.append(inst)
            if not new:
                break
            out.extend(new)
            if len(out) > limit:
                break
            frontier = new
        return out


def smt2(forms):
    s = z3.Solver()
    s.add(*forms)
    return s.to_smt2()


CVC5 = shutil.which('cvc5')
Z3NEW = shutil.which('z3-new') or shutil.which('z3')


def ext_solve(text, timeout, opts=()):
    """run cvc5 on the query"""
    if not CVC5:
        return 'unknown'
    text = '(set-logic ALL)\n' + re.sub(r'\(set-info[^\n]*\n', '', text)
    with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f:
        f.write(text)
    try:
        r = subprocess.run([CVC5, '--tlimit=%d' % int(timeout * 1000)] + list(opts) + [f.name], capture_output=True, text=True,
                           timeout=timeout + 10)
        o = r.stdout.strip().split('\n')[0] if r.stdout.strip() else ''
        return o if o in ('sat', 'unsat') else 'unknown'
    except Exception:
        return 'unknown'
    finally:
        os.unlink(f.name)


class Result:
    def __init__(self):
        self.label = ''
        self.mode = 'proof'
        self.status = 'ok'       # ok / failed / undecided / toollimit
        self.obls = []           # (name, status, backend, secs, info)
        self.error = ''
        self.failed = []         # dicts
        self.covers = 0
        self.time = 0.0
        self.solver_time = 0.0
        self.contracts_used = []
        self.inlined = []
        self.noop = []
        self.ext = {}
        self.paths = 0
        self.assumptions = []
        self.unroll = None


def make_solver(timeout_ms, tactic=None):
    s = z3.SimpleSolver() if tactic is None else z3.Solver() if tactic == 'default' else z3.Tactic(tactic).solver()
    s.set('timeout', int(timeout_ms))
    return s


def mentions(f, names):
    seen = set()
    st = [f]
    while st:
        e = st.pop()
        if e.get_id() in seen:
            continue
        seen.add(e.get_id())
        if z3.is_app(e):
            if e.decl().name() in names:
                return True
            st.extend(e.children())
    return False


PURE = {}


def pure(f):
    """no arrays and no spec functions: bit-vector arithmetic over constants"""
    k = f.get_id()
    if k in PURE:
        return PURE[k][1]
    r = True
    if z3.is_quantifier(f):
        r = False
    elif z3.is_app(f):
        d = f.decl().kind()
        if d in (z3.Z3_OP_SELECT, z3.Z3_OP_STORE) or (d == z3.Z3_OP_UNINTERPRETED and f.num_args()):
            r = False
        else:
            r = all(pure(c) for c in f.children())
    PURE[k] = (f, r)
    return r


def conjuncts(f):
    if z3.is_and(f):
        out = []
        for c in f.children():
            out += conjuncts(c)
        return out
    return [f]


def try_pure(o, ms=6000):
    """range arithmetic only: hypotheses about memory and spec functions are dropped (sound)"""
    if not pure(o.goal):
        return False
    s = make_solver(ms)
    for f in o.pc:
        s.add(*[c for c in conjuncts(f) if pure(c)])
    s.add(z3.Not(o.goal))
    return s.check() == z3.unsat


def discharge(x, o, tl, quick=False):
    """-> (status, backend, secs, model)"""
    t0 = time.time()
    if z3.is_true(z3.simplify(o.goal)):
        return 'unsat', 'simplify', time.time() - t0, None
    forms = list(o.pc) + [z3.Not(o.goal)]
    fuel = getattr(x, 'fuel', 3)
    for pat, drop in getattr(x, 'slices', ()):
        # fewer hypotheses first (sound): those that mention the listed spec functions are dropped
        if not re.search(pat, o.name):
            continue
        f2 = [f for f in forms if not mentions(f, drop)]
        ax = [f for f in x.axioms if not mentions(f, drop)]
        inst = [f for f in x.defs_.close(f2 + ax, fuel) if not mentions(f, drop)] if x.defs_ else []
        s = make_solver(8000)
        s.add(*f2, *ax, *inst)
        if s.check() == z3.unsat:
            return 'unsat', 'z3', time.time() - t0, None
    if getattr(x, 'nia', None) and re.search(x.nia, o.name):
        import nia
        s = z3.Solver()
        s.set('timeout', 10000)
        s.add(*nia.translate([z3.simplify(f) for f in forms]))
        if s.check() == z3.unsat:
            return 'unsat', 'z3-nia', time.time() - t0, None
    inst = x.defs_.close(forms + list(x.axioms), fuel) if x.defs_ else []
    allf = list(x.axioms) + inst + forms
    strat = getattr(x, 'strategy', None) or [('z3', 0.06), ('cvc5', 0.12), ('z3:default', 0.2), ('cvc5', 0.3), ('z3', 0.32)]
    if quick:
        strat = strat[:1]
        strat = [(strat[0][0], 1.0)]
    last = 'unknown'
    model = None
    if z3.is_false(z3.simplify(o.goal)) and not inst:
        pass
    for kind, frac in strat:
        b = max(2.0, tl * frac)
        if kind == 'z3':
            s = make_solver(b * 1000)
            s.add(*allf)
            r = s.check()
            if r == z3.unsat:
                return 'unsat', 'z3', time.time() - t0, None
            if r == z3.sat:
                return 'sat', 'z3', time.time() - t0, s.model()
        elif kind.startswith('z3:'):
            s = make_solver(b * 1000, kind[3:])
            s.add(*allf)
            r = s.check()
            if r == z3.unsat:
                return 'unsat', kind, time.time() - t0, None
            if r == z3.sat:
                return 'sat', kind, time.time() - t0, s.model()
        elif kind.startswith('cvc5'):
            opts = kind.split('|')[1:]
            r = ext_solve(smt2(allf), b, opts)
            if r == 'unsat':
                return 'unsat', 'cvc5', time.time() - t0, None
            if r == 'sat':
                return 'sat', 'cvc5', time.time() - t0, None
    return 'unknown', '-', time.time() - t0, None


def model_text(x, m, o):
    if m is None:
        return '(no model)'
    lines = []
    for d in m.decls():
        if d.arity() == 0:
            n = d.name()
            v = m[d]
            if z3.is_bv_value(v):
                lines.append('%s = %d' % (n, v.as_signed_long()))
            elif z3.is_array(v) if hasattr(z3, 'is_array') and z3.is_expr(v) else False:
                continue
            else:
                t = str(v)
                if len(t) < 200:
                    lines.append('%s = %s' % (n, t))
    return '\n'.join(sorted(lines)[:120])


def par_discharge(x, obls, tl, nproc, deadline=None):
    """discharge in forked children; returns list of (idx,status,backend,secs,modeltext)"""
    todo = []
    res = {}
    for i, o in enumerate(obls):
        if z3.is_true(o.goal):
            res[i] = ('unsat', 'simplify', 0.0, '')
        else:
            todo.append(i)

    groups = []
    for i in todo:
        if groups and len(groups[-1]) < 24:
            a, b_ = obls[groups[-1][0]], obls[i]
            if len(a.pc) == len(b_.pc) and all(p is q for p, q in zip(a.pc, b_.pc)):
                groups[-1].append(i)
                continue
        groups.append([i])

    def work(gs, wr):
        out = []
        for idx in gs:
            if getattr(x, 'incremental', False):
                left = []
                for i in idx:
                    t0 = time.time()
                    if try_pure(obls[i]):
                        out.append((i, 'unsat', 'z3', time.time() - t0, ''))
                    else:
                        left.append(i)
                idx = left
                if not idx:
                    continue
            if not getattr(x, 'incremental', False) or len(idx) == 1 or (deadline and time.time() > deadline):
                out += work1(idx)
                continue
            t0 = time.time()
            rest = []
            try:
                pc = obls[idx[0]].pc
                goals = [z3.Not(obls[i].goal) for i in idx]
                inst = x.defs_.close(list(pc) + goals + list(x.axioms), getattr(x, 'fuel', 3)) if x.defs_ else []
                s = z3.SimpleSolver()
                s.set('timeout', 5000)
                s.add(*x.axioms)
                s.add(*inst)
                s.add(*pc)
                tp = time.time() - t0
                for i, g in zip(idx, goals):
                    t0 = time.time()
                    s.push()
                    s.add(g)
                    r = s.check()
                    s.pop()
                    if r == z3.unsat:
                        out.append((i, 'unsat', 'z3', time.time() - t0 + tp / len(idx), ''))
                    else:
                        rest.append(i)
            except z3.Z3Exception:
                rest = [i for i in idx if i not in {o[0] for o in out}]
            if rest:
                out += work1(rest)
        return out

    def work1(idx):
        out = []
        for i in idx:
            if deadline and time.time() > deadline:
                out.append((i, 'unknown', '-', 0.0, 'time limit'))
                continue
            try:
                s, b, t, m = discharge(x, obls[i], tl)
                out.append((i, s, b, t, model_text(x, m, obls[i]) if s == 'sat' else ''))
            except Exception as e:
                out.append((i, 'unknown', '-', 0.0, 'error: ' + repr(e)))
        return out
    if nproc <= 1 or len(todo) < 8:
        for i, s, b, t, m in work(groups, None):
            res[i] = (s, b, t, m)
        return res
    kids = []
    for k in range(nproc):
        part = groups[k::nproc]
        if not part:
            continue
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                out = work(part, None)
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(out, f)
            finally:
                os._exit(0)
        os.close(w)
        kids.append((pid, r, part))
    for pid, r, part in kids:
        with os.fdopen(r, 'rb') as f:
            data = f.read()
        os.waitpid(pid, 0)
        try:
            out = pickle.loads(data)
        except Exception:
            out = [(i, 'unknown', '-', 0.0, 'worker died') for g in part for i in g]
        for i, s, b, t, m in out:
            res[i] = (s, b, t, m)
    return res


def run_once(c, build, mode, rename=None, jobs=1):
    """generate obligations for contract c"""
    t0 = time.time()
    ws, raw = {}, set()
    for attempt in range(12):
        x = X(build.prog, c.fn)
        x.build = build
        x.defs_ = Defs()
        x.writeset, x.rawvars = ws, raw
        x.grew = False
        x.assumptions = []
        x.mode = mode
        x.rename = rename or {}
        if mode == 'bounded':
            x.use_invariants = False
            x.unroll = c.unroll
        x.deadline = t0 + c.timeout
        c.run(x)
        if not x.grew:
            return x
    raise Unsupported('write-set fixpoint did not converge')


def run_contract(c, build, mode='proof', rename=None, jobs=1, tl=None, total=None):
    r = Result()
    r.label = c.label
    r.mode = mode
    t0 = time.time()
    tl = tl or (60 if TIER == 'quick' else 200)
    try:
        x = run_once(c, build, mode, rename)
    except AttachError as e:
        r.status, r.error = 'attach', str(e)
        r.time = time.time() - t0
        return r
    except (Unsupported, KeyError, IndexError, AttributeError, TypeError, z3.Z3Exception, RecursionError, ValueError) as e:
        r.status, r.error = 'unsupported', '%s: %s' % (type(e).__name__, e)
        if not isinstance(e, Unsupported):
            r.error += '\n' + traceback.format_exc()[-1500:]
        r.time = time.time() - t0
        return r
    t1 = time.time()
    tl = getattr(x, 'tl', tl)
    res = par_discharge(x, x.obls, tl, jobs, deadline=(t0 + total) if total else None)
    r.solver_time = sum(v[2] for v in res.values())
    bad = unk = 0
    for i, o in enumerate(x.obls):
        s, b, t, m = res[i]
        r.obls.append((o.name, s, b, round(t, 3), o.kind))
        if s != 'unsat':
            d = {'name': '%s/%s' % (c.label, o.name), 'status': s, 'where': o.info, 'trace': o.trace, 'model': m, 'kind': o.kind,
                 'goal': str(o.goal)[:1500]}
            r.failed.append(d)
            if s == 'sat':
                bad += 1
            else:
                unk += 1
    r.covers = x.cover
    r.status = 'failed' if bad else 'undecided' if unk else 'ok'
    if r.status == 'ok' and (x.cover == 0 or not x.obls):
        r.status, r.error = 'vacuous', 'no reachable return or no obligations'
    r.contracts_used = sorted(x.used_contracts)
    r.inlined = sorted(x.inlined)
    r.noop = sorted(x.noop_used)
    r.ext = dict(x.ext)
    r.paths = x.npaths
    r.assumptions = list(dict.fromkeys(x.assumptions))
    r.unroll = c.unroll if mode == 'bounded' else None
    r.time = time.time() - t0
    r.gen_time = t1 - t0
    return r


BASELOC = os.path.join(VERIF, 'irv', 'baseline_locals.json')


def local_names(f):
    names = set()
    f.blocks
    for b in f.blocks.values():
        for i in b:
            if i['op'] == 'alloca':
                n = i['res'][1:]
                if n.endswith('.addr'):
                    n = n[:-5]
                names.add(n)
    return names


def try_renames(c, build, err, jobs):
    """a local the invariants mention is gone: try the locals that are new in this function"""
    m = re.match(r"(\S+): no local variable '(\w+)'", err)
    if not m or not os.path.exists(BASELOC):
        return None
    base = json.load(open(BASELOC))
    fnname = m.group(1)
    f = build.prog.funcs_any.get(fnname)
    if fnname not in base or f is None:
        return None
    cur = local_names(f)
    old = set(base[fnname])
    missing = sorted(old - cur)
    new = sorted(cur - old)
    if not missing or not new or len(missing) > 4 or len(new) > 6:
        return None
    tries = 0
    want = m.group(2)
    for k in range(1, len(missing) + 1):
        for ms in itertools.combinations(missing, k):
            if want not in ms:
                continue
            for perm in itertools.permutations(new, k):
                tries += 1
                if tries > 24:
                    return None
                rn = {(fnname, a): b for a, b in zip(ms, perm)}
                r = run_contract(c, build, 'proof', rn, jobs)
                if r.status == 'ok':
                    r.assumptions.append('locals matched by search: %s' % rn)
                    return r
    return None


def decide_contract(c, build, jobs=1, phase='all', first=None):
    """proof, then rename search, then bounded stand-in"""
    if phase == 'bounded':
        r3 = run_contract(c, build, 'bounded', jobs=jobs, total=min(c.timeout, BOUNDED_CAP))
        r3.history = [first] if first else []
        return r3
    r = run_contract(c, build, 'proof', jobs=jobs, total=c.timeout)
    r.history = []
    if r.status == 'ok':
        return r
    first = r
    if r.status == 'attach':
        r2 = try_renames(c, build, r.error, jobs)
        if r2:
            r2.history = [first]
            return r2
    if phase == 'proof':
        return r
    # a failure that does not depend on loop invariants is decisive only when it persists without them
    r3 = run_contract(c, build, 'bounded', jobs=jobs, total=c.timeout)
    r3.history = [first]
    return r3


BOUNDED_CAP = 240


def run_pool(labels, build, nproc=NCPU, phase='all', firsts=None, until=None):
    """each contract in its own forked process"""
    order = sorted(labels, key=lambda l: -REG[l].timeout)
    running = {}
    results = {}
    queue = list(order)
    # spread spare cores
    jobs = max(1, nproc // max(1, len(queue)))
    while queue or running:
        while queue and len(running) < nproc:
            l = queue.pop(0)
            r, w = os.pipe()
            sys.stdout.flush()
            pid = os.fork()
            if pid == 0:
                try:
                    os.setpgid(0, 0)
                    os.close(r)
                    c = REG[l]
                    try:
                        import resource
                        resource.setrlimit(resource.RLIMIT_AS, (12 << 30, 12 << 30))
                        sys.setrecursionlimit(20000)
                        res = decide_contract(c, build, jobs=nproc if c.timeout >= 400 else max(jobs, 2), phase=phase, first=(firsts or {}).get(l))
                    except BaseException as e:
                        res = Result()
                        res.label = l
                        res.status = 'error'
                        res.error = traceback.format_exc()[-3000:]
                        res.history = []
                    with os.fdopen(w, 'wb') as f:
                        pickle.dump(res, f)
                finally:
                    os._exit(0)
            os.close(w)
            running[r] = (l, pid)
        import select
        if until and time.time() > until:
            for fd, (l, pid) in running.items():
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
            for l in queue + [l for l, p in running.values()]:
                res = Result()
                res.label, res.status, res.error, res.mode = l, 'toollimit', 'time limit of the check', 'bounded' if phase == 'bounded' else 'proof'
                res.history = [firsts[l]] if firsts and l in firsts else []
                results[l] = res
            for fd, (l, pid) in running.items():
                os.waitpid(pid, 0)
                os.close(fd)
            return results
        rd, _, _ = select.select(list(running), [], [], 5)
        for fd in rd:
            l, pid = running.pop(fd)
            with os.fdopen(fd, 'rb') as f:
                data = f.read()
            os.waitpid(pid, 0)
            try:
                results[l] = pickle.loads(data)
            except Exception:
                res = Result()
                res.label = l
                res.status = 'error'
                res.error = 'worker died'
                res.history = []
                results[l] = res
    return results


def ack_cover(x, st):
    """reachability of a return under the precondition"""
    s = z3.Solver()
    s.set('timeout', 10000)
    forms = list(st.pc) + list(x.axioms)
    inst = x.defs_.close(forms, getattr(x, 'fuel', 3)) if x.defs_ else []
    s.add(*forms)
    s.add(*inst)
    if s.check() == z3.sat:
        x.cover += 1
        return True
    return False
