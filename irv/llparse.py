"""Parser for the subset of textual LLVM IR that clang-18 -O0 emits for C.
One Module per .ll text; function bodies are parsed lazily."""
import re, struct

TOK = re.compile(r'''\s*(?:
  (?P<str>c?"(?:[^"\\]|\\.)*")
 |(?P<id>[%@](?:"[^"]*"|[-a-zA-Z$._0-9]+))
 |(?P<meta>![-a-zA-Z$._0-9]*)
 |(?P<attr>\#\d+)
 |(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 |(?P<num>-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)
 |(?P<word>[a-zA-Z_$][-\w.$]*)
 |(?P<dots>\.\.\.)
 |(?P<p>[()\[\]{}<>,=*:|])
)''', re.X)


def tokenize(s):
    out = []
    i = 0
    n = len(s)
    while i < n:
        m = TOK.match(s, i)
        if not m:
            if s[i:].strip() == '':
                break
            raise SyntaxError('tokenize: %r' % s[i:i + 60])
        i = m.end()
        k = m.lastgroup
        v = m.group(k)
        out.append((k, v))
    return out


# ---- types: ('int',n) ('ptr',) ('double',) ('float',) ('x86_fp80',) ('void',)
#      ('arr',n,t) ('struct',name) ('lit',[..],packed) ('func',ret,params,vararg)
class P:
    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i][1]
        self.i += 1
        return v

    def accept(self, v):
        if self.peek() == v:
            self.i += 1
            return True
        return False

    def expect(self, v):
        g = self.next()
        if g != v:
            raise SyntaxError('expected %s got %s in %s' % (v, g, ' '.join(x[1] for x in self.t)))

    def type(self):
        v = self.next()
        t = None
        if re.fullmatch(r'i\d+', v):
            t = ('int', int(v[1:]))
        elif v == 'ptr':
            t = ('ptr',)
        elif v in ('double', 'float', 'x86_fp80', 'void', 'label', 'metadata', 'token'):
            t = (v,)
        elif v == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            t = ('arr', n, e)
        elif v == '{':
            t = ('lit', self.typelist('}'), False)
        elif v == '<':
            if self.accept('{'):
                l = self.typelist('}')
                self.expect('>')
                t = ('lit', l, True)
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                t = ('vec', n, e)
        elif v[0] == '%':
            t = ('struct', v)
        elif v == 'opaque':
            t = ('opaque',)
        else:
            raise SyntaxError('type? %s in %s' % (v, ' '.join(x[1] for x in self.t)))
        # function type
        if self.peek() == '(' and self.allow_func:
            self.next()
            ps = []
            va = False
            while not self.accept(')'):
                if self.accept('...'):
                    va = True
                else:
                    ps.append(self.type())
                self.accept(',')
            t = ('func', t, ps, va)
        return t

    allow_func = False

    def typelist(self, end):
        l = []
        while not self.accept(end):
            l.append(self.type())
            self.accept(',')
        return l

    ATTRW = {'noundef', 'signext', 'zeroext', 'nonnull', 'noalias', 'nocapture', 'readonly',
             'writeonly', 'inreg', 'returned', 'immarg', 'readnone', 'allocptr', 'noreturn'}

    def param_attrs(self):
        while True:
            v = self.peek()
            if v in self.ATTRW:
                self.next()
            elif v in ('align', 'allocalign'):
                self.next()
                if self.kind() == 'num':
                    self.next()
            elif v in ('byval', 'sret', 'dereferenceable', 'dereferenceable_or_null', 'elementtype', 'memory'):
                self.next()
                if self.accept('('):
                    d = 1
                    while d:
                        x = self.next()
                        d += x == '('
                        d -= x == ')'
            else:
                return

    # ---- values: ('reg',name) ('glob',name) ('int',v) ('null',) ('undef',) ('fp',float/hex) ('ce',...)
    def value(self, ty):
        k = self.kind()
        v = self.next()
        if k == 'id':
            return ('reg', v) if v[0] == '%' else ('glob', v)
        if k == 'num':
            if ty[0] in ('double', 'float'):
                return ('fp', float(v))
            return ('int', int(v))
        if k == 'hex':
            if ty[0] in ('double', 'float'):
                return ('fp', struct.unpack('>d', bytes.fromhex(v[2:].zfill(16)))[0])
            if ty[0] == 'x86_fp80':
                return ('fp80', v[3:].zfill(20))
            return ('int', int(v, 16))
        if v == 'true':
            return ('int', 1)
        if v == 'false':
            return ('int', 0)
        if v == 'null':
            return ('null',)
        if v in ('undef', 'poison'):
            return ('undef',)
        if v == 'zeroinitializer':
            return ('zero',)
        if k == 'str':
            return ('cstr', decode_cstr(v))
        if v in ('getelementptr',):
            self.accept('inbounds')
            self.expect('(')
            bt = self.type()
            self.expect(',')
            args = []
            while True:
                t = self.type()
                a = self.value(t)
                args.append((t, a))
                if not self.accept(','):
                    break
            self.expect(')')
            return ('cegep', bt, args)
        if v in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext', 'sext'):
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect('to')
            t2 = self.type()
            self.expect(')')
            return ('cecast', v, t, a, t2)
        if v in ('add', 'sub', 'mul', 'and', 'or', 'xor', 'shl'):
            while self.peek() in ('nsw', 'nuw'):
                self.next()
            self.expect('(')
            t = self.type()
            a = self.value(t)
            self.expect(',')
            t2 = self.type()
            b = self.value(t2)
            self.expect(')')
            return ('cebin', v, t, a, b)
        if v == '[':
            l = []
            while not self.accept(']'):
                t = self.type()
                l.append((t, self.value(t)))
                self.accept(',')
            return ('agg', l)
        if v == '{':
            l = []
            while not self.accept('}'):
                t = self.type()
                l.append((t, self.value(t)))
                self.accept(',')
            return ('agg', l)
        raise SyntaxError('value? %s in %s' % (v, ' '.join(x[1] for x in self.t)))


def decode_cstr(s):
    if s.startswith('c'):
        s = s[1:]
    s = s[1:-1]
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\':
            if s[i + 1] == '\\':
                out.append(92)
                i += 2
            else:
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
        else:
            out += s[i].encode('utf-8')
            i += 1
    return bytes(out)


class Func:
    def __init__(self, name, mod, ret, params, text):
        self.name = name
        self.mod = mod
        self.ret = ret
        self.params = params  # [(type,name)]
        self.text = text
        self._blocks = None

    @property
    def blocks(self):
        if self._blocks is None:
            self.parse()
        return self._blocks

    def parse(self):
        blocks = {}
        order = []
        cur = None
        lines = self.text.split('\n')[1:]
        i = 0
        while i < len(lines):
            ln = lines[i]
            i += 1
            if ln.startswith('}'):
                break
            if not ln.strip():
                continue
            m = re.match(r'^("?[-\w.$ ]+"?):', ln)
            if m and not ln.startswith(' '):
                cur = '%' + m.group(1)
                blocks[cur] = []
                order.append(cur)
                continue
            if cur is None:
                cur = '%entry'
                blocks[cur] = []
                order.append(cur)
            # multi-line switch
            if ln.strip().startswith('switch') and ln.rstrip().endswith('['):
                while not lines[i].strip().startswith(']'):
                    ln += ' ' + lines[i]
                    i += 1
                ln += ' ]'
                i += 1
            ln2 = re.sub(r',?\s*!\w+ !\d+', '', ln)
            blocks[cur].append(parse_instr(ln2, self.mod))
        self._blocks = blocks
        self.order = order
        self.analyze_cfg()

    def succs(self, b):
        ins = self.blocks_[b][-1]
        if ins['op'] == 'br':
            return [ins['t']] if ins.get('cond') is None else [ins['t'], ins['f']]
        if ins['op'] == 'switch':
            return [ins['default']] + [x[1] for x in ins['cases']]
        return []

    def analyze_cfg(self):
        B = self.blocks_ = self._blocks
        entry = self.order[0]
        succ = {b: self.succs(b) for b in B}
        # rpo
        seen = set()
        post = []
        stack = [(entry, iter(succ[entry]))]
        seen.add(entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(succ[s])))
                    break
            else:
                post.append(b)
                stack.pop()
        rpo = post[::-1]
        idx = {b: i for i, b in enumerate(rpo)}
        pred = {b: [] for b in rpo}
        for b in rpo:
            for s in succ[b]:
                pred[s].append(b)
        # dominators
        dom = {entry: {entry}}
        allb = set(rpo)
        for b in rpo[1:]:
            dom[b] = allb
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                n = None
                for p in pred[b]:
                    n = dom[p] if n is None else (n & dom[p])
                n = (n or set()) | {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        self.rpo = rpo
        self.pred = pred
        # immediate dominators
        self.idom = {b: max((d for d in dom[b] if d != b), key=lambda d: len(dom[d]), default=None) for b in rpo}
        self.succ = succ
        loops = {}
        self.irreducible = False
        for b in rpo:
            for s in succ[b]:
                if s in dom[b]:  # back edge b->s
                    body = loops.setdefault(s, {s})
                    st = [b]
                    while st:
                        x = st.pop()
                        if x not in body:
                            body.add(x)
                            st.extend(pred[x])
                elif idx[s] <= idx[b]:
                    self.irreducible = True
        self.loops = loops  # header -> body set
        # order loops by source order (textual order of blocks)
        self.loop_order = [b for b in self.order if b in loops]


def parse_instr(line, mod):
    p = P(tokenize(line), mod)
    res = None
    if p.kind() == 'id' and p.peek(1) == '=':
        res = p.next()
        p.next()
    op = p.next()
    d = {'op': op, 'res': res, 'line': line.strip()}
    if op in ('tail', 'musttail', 'notail'):
        op = d['op'] = p.next()
    if op == 'alloca':
        d['ty'] = p.type()
        d['n'] = None
        if p.accept(','):
            if p.peek() != 'align':
                t = p.type()
                d['n'] = (t, p.value(t))
    elif op == 'load':
        p.accept('volatile')
        d['ty'] = p.type()
        p.expect(',')
        t = p.type()
        d['ptr'] = p.value(t)
    elif op == 'store':
        p.accept('volatile')
        t = p.type()
        d['ty'] = t
        d['val'] = p.value(t)
        p.expect(',')
        t = p.type()
        d['ptr'] = p.value(t)
    elif op == 'getelementptr':
        p.accept('inbounds')
        d['bt'] = p.type()
        p.expect(',')
        args = []
        while True:
            t = p.type()
            args.append((t, p.value(t)))
            if not p.accept(','):
                break
        d['args'] = args
    elif op in ('icmp', 'fcmp'):
        d['pred'] = p.next()
        d['ty'] = p.type()
        d['a'] = p.value(d['ty'])
        p.expect(',')
        d['b'] = p.value(d['ty'])
    elif op in ('add', 'sub', 'mul', 'sdiv', 'udiv', 'srem', 'urem', 'and', 'or', 'xor', 'shl', 'ashr', 'lshr',
                'fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
        fl = set()
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint', 'fast', 'nnan'):
            fl.add(p.next())
        d['flags'] = fl
        d['ty'] = p.type()
        d['a'] = p.value(d['ty'])
        p.expect(',')
        d['b'] = p.value(d['ty'])
    elif op == 'fneg':
        d['ty'] = p.type()
        d['a'] = p.value(d['ty'])
    elif op in ('sext', 'zext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'sitofp', 'uitofp', 'fptosi', 'fptoui',
                'fpext', 'fptrunc'):
        p.accept('nneg')
        d['ty'] = p.type()
        d['a'] = p.value(d['ty'])
        p.expect('to')
        d['to'] = p.type()
    elif op == 'br':
        if p.peek() == 'label':
            p.next()
            d['t'] = p.next()
            d['cond'] = None
        else:
            t = p.type()
            d['cond'] = p.value(t)
            p.expect(',')
            p.expect('label')
            d['t'] = p.next()
            p.expect(',')
            p.expect('label')
            d['f'] = p.next()
    elif op == 'switch':
        t = p.type()
        d['ty'] = t
        d['val'] = p.value(t)
        p.expect(',')
        p.expect('label')
        d['default'] = p.next()
        p.expect('[')
        cs = []
        while not p.accept(']'):
            t2 = p.type()
            v = p.value(t2)
            p.expect(',')
            p.expect('label')
            cs.append((v[1], p.next()))
        d['cases'] = cs
    elif op == 'ret':
        t = p.type()
        d['ty'] = t
        d['val'] = None if t == ('void',) else p.value(t)
    elif op == 'unreachable':
        pass
    elif op == 'phi':
        d['ty'] = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(d['ty'])
            p.expect(',')
            b = p.next()
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
        d['inc'] = inc
    elif op == 'select':
        t = p.type()
        d['c'] = p.value(t)
        p.expect(',')
        d['ty'] = p.type()
        d['a'] = p.value(d['ty'])
        p.expect(',')
        t = p.type()
        d['b'] = p.value(t)
    elif op == 'call':
        while p.peek() in P.ATTRW or p.peek() in ('fastcc', 'ccc'):
            p.next()
        p.param_attrs()
        rt = p.type()
        if p.peek() == '(':  # function type
            # skip parameter types
            p.next()
            depth = 1
            while depth:
                x = p.next()
                depth += x == '('
                depth -= x == ')'
        d['ty'] = rt
        if p.kind() == 'word' and p.peek() == 'asm':
            d['callee'] = ('asm',)
            d['args'] = []
            return d
        d['callee'] = p.value(('ptr',))
        p.expect('(')
        args = []
        while not p.accept(')'):
            t = p.type()
            if t == ('metadata',):
                # skip
                while p.peek() not in (',', ')'):
                    p.next()
                p.accept(',')
                continue
            p.param_attrs()
            args.append((t, p.value(t)))
            p.accept(',')
        d['args'] = args
    elif op == 'extractvalue':
        d['ty'] = p.type()
        d['a'] = p.value(d['ty'])
        p.expect(',')
        d['idx'] = int(p.next())
    elif op == 'cmpxchg':
        d['raw'] = True
    elif op == 'va_arg':
        d['raw'] = True
    else:
        d['raw'] = True
    return d


class Module:
    def __init__(self, text, name):
        self.name = name
        self.structs = {}
        self.globals = {}
        self.funcs = {}
        self.decls = set()
        self._layout = {}
        # functions
        for m in re.finditer(r'^define[^\n]*\n(?:.*\n)*?\}\n', text, re.M):
            ft = m.group(0)
            head = ft.split('\n', 1)[0]
            nm = re.search(r'@("[^"]*"|[-\w.$]+)\(', head)
            name_ = nm.group(1)
            rt_txt = head[len('define'):nm.start()]
            rp = P(tokenize(rt_txt), self)
            while rp.peek() and not (re.fullmatch(r'i\d+|ptr|void|double|float|x86_fp80', rp.peek())
                                     or rp.peek()[0] in '%{['):
                if rp.peek() in ('dereferenceable', 'align'):
                    rp.next()
                    while rp.peek() and rp.peek() in '()' or rp.kind() == 'num':
                        rp.next()
                    continue
                rp.next()
            rt = rp.type()
            # params
            i = nm.end()
            depth = 1
            j = i
            while depth:
                depth += head[j] == '('
                depth -= head[j] == ')'
                j += 1
            pp = P(tokenize(head[i:j - 1]), self)
            params = []
            va = False
            while pp.i < len(pp.t):
                if pp.accept('...'):
                    va = True
                    break
                t = pp.type()
                pp.param_attrs()
                n = pp.next() if pp.kind() == 'id' else '%' + str(len(params))
                params.append((t, n))
                pp.accept(',')
            f = Func(name_, self, rt, params, ft)
            f.vararg = va
            f.internal = ' internal ' in head
            self.funcs[name_] = f
        for m in re.finditer(r'^(%[^\s=]+) = type (.*)$', text, re.M):
            p = P(tokenize(m.group(2)), self)
            self.structs[m.group(1)] = p.type()
        for m in re.finditer(r'^(@[^\s=]+) = (.*)$', text, re.M):
            self.globals[m.group(1)] = m.group(2)
        for m in re.finditer(r'^declare[^@]*@([-\w.$]+)', text, re.M):
            self.decls.add(m.group(1))
        self._gparsed = {}

    def resolve(self, t):
        while t[0] == 'struct':
            t = self.structs[t[1]]
        return t

    def align(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            n = (t[1] + 7) // 8
            return 1 if n <= 1 else 2 if n <= 2 else 4 if n <= 4 else 8 if n <= 8 else 16
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80':
            return 16
        if k == 'arr':
            return self.align(t[2])
        if k == 'lit':
            if t[2]:
                return 1
            return max([self.align(x) for x in t[1]] or [1])
        raise ValueError(t)

    def size(self, t):
        t = self.resolve(t)
        k = t[0]
        if k == 'int':
            n = (t[1] + 7) // 8
            a = self.align(t)
            return (n + a - 1) // a * a
        if k in ('ptr', 'double'):
            return 8
        if k == 'float':
            return 4
        if k == 'x86_fp80':
            return 16
        if k == 'arr':
            return t[1] * self.size(t[2])
        if k == 'lit':
            off = self.fields(t)
            if not t[1]:
                return 0
            e = off[-1] + self.size(t[1][-1])
            a = self.align(t)
            return (e + a - 1) // a * a
        raise ValueError(t)

    def fields(self, t):
        key = id(t)
        if key in self._layout:
            return self._layout[key]
        o = 0
        out = []
        for x in t[1]:
            a = 1 if t[2] else self.align(x)
            o = (o + a - 1) // a * a
            out.append(o)
            o += self.size(x)
        self._layout[key] = out
        return out

    def global_init(self, name):
        """-> (type, value, is_const) or None for external"""
        if name in self._gparsed:
            return self._gparsed[name]
        txt = self.globals.get(name)
        r = None
        if txt is not None:
            txt = re.sub(r', align \d+.*$', '', txt)
            ext = re.match(r'external ', txt) is not None or ' external ' in txt.split('[')[0].split('{')[0]
            m = re.search(r'\b(global|constant)\b', txt)
            isc = m.group(1) == 'constant'
            p = P(tokenize(txt[m.end():]), self)
            t = p.type()
            v = None if ext else p.value(t)
            r = (t, v, isc)
        self._gparsed[name] = r
        return r
