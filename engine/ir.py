"""Textual LLVM-18 IR reader (opaque pointers).  Functions are parsed lazily."""
import re

TOK = re.compile(r'''\s*(?:
  (?P<q>[%@]"[^"]*"|[%@$][-\w.$]+)
 |(?P<cstr>c"(?:[^"\\]|\\.)*")
 |(?P<str>"[^"]*")
 |(?P<md>![\w.]*)
 |(?P<attr>\#\d+)
 |(?P<num>-?\d+(?:\.\d+(?:[eE][-+]?\d+)?)?(?![\w]))
 |(?P<hex>0x[KLMHR]?[0-9A-Fa-f]+)
 |(?P<dots>\.\.\.)
 |(?P<id>[A-Za-z_][\w.]*)
 |(?P<p>[=,(){}\[\]<>*:|])
)''', re.X)


def tokenize(s):
    out = []
    pos = 0
    n = len(s)
    while pos < n:
        m = TOK.match(s, pos)
        if not m:
            if s[pos:].strip() == '':
                break
            if s[pos:].lstrip().startswith(';'):
                break
            raise SyntaxError('tok: ' + s[pos:pos + 60])
        out.append(m.group(m.lastgroup))
        pos = m.end()
    return out


def unq(name):
    if len(name) > 1 and name[1] == '"':
        return name[0] + name[2:-1]
    return name


class Ins:
    __slots__ = ('op', 'res', 'ty', 'a', 'x', 'line')

    def __init__(self, op, res=None, ty=None, a=(), x=None):
        self.op, self.res, self.ty, self.a, self.x = op, res, ty, a, x

    def __repr__(self):
        return f'<{self.res}={self.op} {self.ty} {self.a} {self.x}>'


I1 = ('i', 1)
PTR = ('ptr',)
PATTRS = {'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'returned', 'signext',
          'zeroext', 'inreg', 'immarg', 'nofree', 'nest', 'swiftself', 'noext', 'writable', 'dead_on_unwind', 'allocptr'}
PATTRS_ARG = {'align', 'dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype',
              'preallocated', 'inalloca', 'nofpclass', 'range', 'allocalign', 'memory', 'initializes'}
FMF = {'fast', 'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr',
         'bitcast', 'addrspacecast'}
BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}


class P:
    """token cursor"""

    def __init__(self, toks, mod):
        self.t, self.i, self.m = toks, 0, mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        v = self.t[self.i]
        self.i += 1
        return v

    def acc(self, s):
        if self.i < len(self.t) and self.t[self.i] == s:
            self.i += 1
            return True
        return False

    def exp(self, s):
        v = self.next()
        if v != s:
            raise SyntaxError(f'expected {s} got {v}: {" ".join(self.t)}')

    def type(self):
        t = self.next()
        if t[0] == 'i' and t[1:].isdigit():
            r = ('i', int(t[1:]))
        elif t == 'ptr':
            r = PTR
            if self.peek() == 'addrspace':
                self.next(); self.exp('('); self.next(); self.exp(')')
        elif t in ('double', 'float', 'x86_fp80', 'half', 'fp128', 'bfloat'):
            r = ('f', t)
        elif t == 'void':
            r = ('void',)
        elif t in ('label', 'metadata', 'token'):
            r = (t,)
        elif t == '[':
            n = int(self.next()); self.exp('x')
            e = self.type(); self.exp(']')
            r = ('arr', n, e)
        elif t == '<':
            if self.peek() == '{':
                self.next()
                r = ('struct', self._tlist('}'), True)
                self.exp('>')
            else:
                n = self.next()
                if n == 'vscale':
                    raise SyntaxError('vscale')
                self.exp('x')
                e = self.type(); self.exp('>')
                r = ('vec', int(n), e)
        elif t == '{':
            r = ('struct', self._tlist('}'), False)
        elif t[0] == '%':
            r = ('named', unq(t))
        else:
            raise SyntaxError('type? ' + t + ' in ' + ' '.join(self.t[:self.i + 10]))
        while self.peek() == '(':     # function type
            self.next()
            while not self.acc(')'):
                if self.acc('...') or self.acc(','):
                    continue
                self.type()
            r = ('func', r)
        return r

    def _tlist(self, end):
        out = []
        if self.acc(end):
            return tuple(out)
        while True:
            out.append(self.type())
            if self.acc(end):
                return tuple(out)
            self.exp(',')

    def pattrs(self):
        while True:
            t = self.peek()
            if t in PATTRS:
                self.next()
            elif t in PATTRS_ARG:
                self.next()
                if t == 'byval' and self.peek() == '(':
                    self.next(); self.byval = self.type(); self.exp(')')
                    continue
                if self.peek() == '(':
                    d = 0
                    while True:
                        u = self.next()
                        if u == '(': d += 1
                        if u == ')':
                            d -= 1
                            if d == 0: break
                elif t == 'align':
                    self.align = int(self.next())
            elif t and t[0] == '#':
                self.next()
            elif t and t[0] == '"':
                self.next()
                if self.acc('='): self.next()
            else:
                return

    def val(self, ty):
        t = self.next()
        c = t[0]
        if c == '%':
            return ('v', unq(t))
        if c == '@':
            return ('g', unq(t))
        if ty[0] == 'f':
            return ('fc', t, ty)
        if c == '-' or c.isdigit():
            if t.startswith('0x'):
                raise SyntaxError('hex')
            return ('c', int(t), ty)
        if t == 'true': return ('c', 1, ty)
        if t == 'false': return ('c', 0, ty)
        if t == 'null': return ('null',)
        if t in ('undef', 'poison'): return ('undef', ty)
        if t == 'zeroinitializer': return ('zero', ty)
        if c == 'c' and len(t) > 1 and t[1] == '"': return ('cstr', t[2:-1])
        if t in ('[', '{'):
            end = {'[': ']', '{': '}'}[t]
            out = []
            while not self.acc(end):
                if self.acc(','): continue
                et = self.type()
                out.append((et, self.val(et)))
            return ('agg', out)
        if t == '<':
            if self.peek() == '{':
                self.next()
                out = []
                while not self.acc('}'):
                    if self.acc(','): continue
                    et = self.type(); out.append((et, self.val(et)))
                self.exp('>')
                return ('agg', out)
            out = []
            while not self.acc('>'):
                if self.acc(','): continue
                et = self.type(); out.append((et, self.val(et)))
            return ('agg', out)
        if t == 'getelementptr':
            inb = False
            while self.peek() in ('inbounds', 'inrange', 'nuw', 'nusw'):
                self.next()
            self.exp('(')
            bt = self.type(); self.exp(',')
            ops = []
            while True:
                while self.peek() == 'inrange': self.next()
                et = self.type(); ops.append((et, self.val(et)))
                if self.acc(')'): break
                self.exp(',')
            return ('cgep', bt, ops)
        if t in CASTS:
            self.exp('(')
            et = self.type(); v = self.val(et); self.exp('to'); dt = self.type(); self.exp(')')
            return ('ccast', t, et, v, dt)
        if t in BIN or t == 'icmp':
            while self.peek() in ('nsw', 'nuw', 'exact'): self.next()
            pred = self.next() if t == 'icmp' else None
            self.exp('(')
            et = self.type(); v = self.val(et); self.exp(',')
            et2 = self.type(); v2 = self.val(et2); self.exp(')')
            return ('cbin', t, pred, et, v, v2)
        if t == 'blockaddress' or t == 'asm' or t == 'dso_local_equivalent' or t == 'no_cfi':
            return ('unk', t)
        if c == '!':
            return ('md', t)
        raise SyntaxError('val? ' + t + ' :: ' + ' '.join(self.t))

    def tval(self):
        ty = self.type()
        self.pattrs()
        return ty, self.val(ty)


class Func:
    def __init__(self, name, mod, header, lines):
        self.name, self.mod, self.header, self.lines = name, mod, header, lines
        self.parsed = False

    def parse(self):
        if self.parsed:
            return self
        self.parsed = True
        m = self.mod
        # params
        h = self.header
        p = P(tokenize(h), m)
        # skip up to the @name
        while unq(p.peek()) != '@' + self.name:
            p.next()
        p.next()
        p.exp('(')
        self.params = []
        self.byval = {}
        self.vararg = False
        idx = 0
        while not p.acc(')'):
            if p.acc(','): continue
            if p.acc('...'):
                self.vararg = True
                continue
            p.byval = None
            ty = p.type(); p.pattrs()
            nm = None
            if p.peek() and p.peek()[0] == '%':
                nm = unq(p.next())
            else:
                nm = '%' + str(idx)
            idx += 1
            self.params.append((ty, nm))
            if p.byval is not None: self.byval[nm] = p.byval
        self.blocks = {}
        self.order = []
        cur = None
        nparam = len(self.params)
        first = True
        i = 0
        L = self.lines
        while i < len(L):
            s = L[i]
            i += 1
            st = s.strip()
            if not st or st[0] == ';':
                continue
            if not s[0].isspace():
                mm = re.match(r'^("[^"]*"|[-\w.$]+):', s)
                if mm:
                    nm = mm.group(1).strip('"')
                    cur = '%' + nm
                    self.blocks[cur] = []
                    self.order.append(cur)
                    continue
            if cur is None:
                cur = '%' + str(nparam)
                self.blocks[cur] = []
                self.order.append(cur)
            # multi-line: switch / landingpad / invoke
            if st.endswith('[') and 'switch' in st:
                while ']' not in L[i]:
                    st += ' ' + L[i].strip(); i += 1
                st += ' ]'; i += 1
            elif ' landingpad ' in st or st.startswith('landingpad'):
                while i < len(L) and re.match(r'\s+(cleanup|catch|filter)\b', L[i]):
                    st += ' ' + L[i].strip(); i += 1
            elif ' invoke ' in (' ' + st):
                if ' unwind label ' not in st:
                    st += ' ' + L[i].strip(); i += 1
            ins = parse_ins(st, m)
            if ins is not None:
                ins.line = st
                self.blocks[cur].append(ins)
        self.entry = self.order[0]
        self._cfg()
        return self

    def succs(self, b):
        t = self.blocks[b][-1]
        if t.op == 'br':
            return list(t.x)
        if t.op == 'switch':
            return [t.x[0]] + [l for _, l in t.x[1]]
        if t.op == 'invoke':
            return [t.x['normal'], t.x['unwind']]
        return []

    def _cfg(self):
        self.succ = {b: list(dict.fromkeys(self.succs(b))) for b in self.order}
        self.pred = {b: [] for b in self.order}
        for b, ss in self.succ.items():
            for s in ss:
                self.pred[s].append(b)
        # RPO + dominators
        seen = set(); post = []
        stack = [(self.entry, iter(self.succ[self.entry]))]
        seen.add(self.entry)
        while stack:
            b, it = stack[-1]
            for s in it:
                if s not in seen:
                    seen.add(s)
                    stack.append((s, iter(self.succ[s])))
                    break
            else:
                post.append(b); stack.pop()
        rpo = post[::-1]
        num = {b: i for i, b in enumerate(rpo)}
        idom = {self.entry: self.entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [p for p in self.pred[b] if p in idom]
                if not ps: continue
                n = ps[0]
                for q in ps[1:]:
                    a, c = q, n
                    while a != c:
                        while num[a] > num[c]: a = idom[a]
                        while num[c] > num[a]: c = idom[c]
                    n = a
                if idom.get(b) != n:
                    idom[b] = n; ch = True
        self.idom = idom

        def dom(a, b):
            while True:
                if a == b: return True
                if b == self.entry: return False
                b = idom[b]
        # natural loops, merged by header
        self.loops = {}
        for b in rpo:
            for s in self.succ[b]:
                if s in num and num[s] <= num[b] and dom(s, b):
                    body = self.loops.setdefault(s, set([s]))
                    wl = [b]
                    while wl:
                        x = wl.pop()
                        if x in body: continue
                        body.add(x)
                        wl.extend(p for p in self.pred[x] if p in num)
        self.rpo = rpo


def parse_ins(st, m):
    # strip trailing metadata
    p = P(tokenize(st), m)
    res = None
    if p.peek()[0] == '%' and p.peek(1) == '=':
        res = unq(p.next()); p.next()
    op = p.next()
    md = None
    if '!' in st:
        mm = re.search(r'!llvm\.loop (![0-9]+)', st)
        if mm: md = mm.group(1)
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op in BIN:
        flags = set()
        while p.peek() in ('nsw', 'nuw', 'exact', 'disjoint') or p.peek() in FMF:
            flags.add(p.next())
        ty = p.type(); a = p.val(ty); p.exp(','); b = p.val(ty)
        return Ins('bin', res, ty, (a, b), (op, flags))
    if op == 'fneg':
        while p.peek() in FMF: p.next()
        ty = p.type(); a = p.val(ty)
        return Ins('fneg', res, ty, (a,))
    if op in ('icmp', 'fcmp'):
        while p.peek() in FMF or p.peek() == 'samesign': p.next()
        pred = p.next(); ty = p.type(); a = p.val(ty); p.exp(','); b = p.val(ty)
        return Ins(op, res, ty, (a, b), pred)
    if op in CASTS:
        while p.peek() in ('nneg', 'nsw', 'nuw'): p.next()
        ty = p.type(); a = p.val(ty); p.exp('to'); dt = p.type()
        return Ins('cast', res, dt, (a,), (op, ty))
    if op == 'alloca':
        p.acc('inalloca')
        ty = p.type()
        n = None
        if p.acc(','):
            if p.peek() != 'align' and p.peek() and p.peek()[0] != '!':
                n = p.tval()
        return Ins('alloca', res, ty, (), n)
    if op == 'load':
        at = p.acc('atomic'); p.acc('volatile')
        ty = p.type(); p.exp(','); p.exp('ptr'); a = p.val(PTR)
        return Ins('load', res, ty, (a,))
    if op == 'store':
        p.acc('atomic'); p.acc('volatile')
        ty = p.type(); v = p.val(ty); p.exp(','); p.exp('ptr'); a = p.val(PTR)
        return Ins('store', None, ty, (v, a))
    if op == 'getelementptr':
        while p.peek() in ('inbounds', 'nuw', 'nusw'): p.next()
        bt = p.type(); p.exp(',')
        ops = []
        while True:
            et = p.type(); ops.append((et, p.val(et)))
            if not p.acc(','): break
            if p.peek() and p.peek()[0] == '!': break
        return Ins('gep', res, bt, tuple(ops))
    if op == 'br':
        if p.peek() == 'label':
            p.next(); l = unq(p.next())
            return Ins('br', None, None, (), (l,))
        p.exp('i1'); c = p.val(I1); p.exp(','); p.exp('label'); a = unq(p.next()); p.exp(','); p.exp('label'); b = unq(p.next())
        return Ins('br', None, None, (c,), (a, b))
    if op == 'switch':
        ty = p.type(); v = p.val(ty); p.exp(','); p.exp('label'); d = unq(p.next()); p.exp('[')
        cs = []
        while not p.acc(']'):
            ct = p.type(); cv = p.val(ct); p.exp(','); p.exp('label'); cs.append((cv[1], unq(p.next())))
        return Ins('switch', None, ty, (v,), (d, cs))
    if op == 'ret':
        ty = p.type()
        if ty == ('void',): return Ins('ret', None, ty, ())
        return Ins('ret', None, ty, (p.val(ty),))
    if op == 'unreachable':
        return Ins('unreachable')
    if op == 'resume':
        ty = p.type(); return Ins('resume', None, ty, (p.val(ty),))
    if op == 'phi':
        while p.peek() in FMF: p.next()
        ty = p.type(); inc = []
        while p.acc('['):
            v = p.val(ty); p.exp(','); l = unq(p.next()); p.exp(']')
            inc.append((v, l))
            if not p.acc(','): break
            if p.peek() and p.peek()[0] == '!': break
        return Ins('phi', res, ty, (), inc)
    if op == 'select':
        while p.peek() in FMF: p.next()
        ct = p.type(); c = p.val(ct); p.exp(','); ty = p.type(); a = p.val(ty); p.exp(','); ty2 = p.type(); b = p.val(ty2)
        return Ins('select', res, ty, (c, a, b), ct)
    if op == 'extractvalue':
        ty = p.type(); v = p.val(ty); idx = []
        while p.acc(','):
            if p.peek()[0] == '!': break
            idx.append(int(p.next()))
        return Ins('extractvalue', res, ty, (v,), idx)
    if op == 'insertvalue':
        ty = p.type(); v = p.val(ty); p.exp(','); et = p.type(); e = p.val(et); idx = []
        while p.acc(','):
            if p.peek()[0] == '!': break
            idx.append(int(p.next()))
        return Ins('insertvalue', res, ty, (v, e), idx)
    if op == 'extractelement':
        ty = p.type(); v = p.val(ty); p.exp(','); it = p.type(); ix = p.val(it)
        return Ins('extractelement', res, ty, (v, ix))
    if op == 'insertelement':
        ty = p.type(); v = p.val(ty); p.exp(','); et = p.type(); e = p.val(et); p.exp(','); it = p.type(); ix = p.val(it)
        return Ins('insertelement', res, ty, (v, e, ix))
    if op == 'shufflevector':
        ty = p.type(); a = p.val(ty); p.exp(','); ty2 = p.type(); b = p.val(ty2); p.exp(','); mt = p.type(); mk = p.val(mt)
        return Ins('shufflevector', res, ty, (a, b), (mt, mk))
    if op == 'freeze':
        ty = p.type(); return Ins('freeze', res, ty, (p.val(ty),))
    if op in ('call', 'invoke'):
        while p.peek() in FMF or p.peek() in ('fastcc', 'ccc', 'coldcc'): p.next()
        p.pattrs()
        ty = p.type()
        if ty[0] == 'func': ty = ty[1]
        t = p.peek()
        if t == 'asm':
            return Ins('call', res, ty, (), {'callee': ('asm',), 'args': []})
        callee = p.val(PTR)
        p.exp('(')
        args = []
        al = 8
        while not p.acc(')'):
            if p.acc(','): continue
            at = p.type(); p.align = 0; p.pattrs()
            if p.align: al = min(al, p.align)
            if at == ('metadata',):
                # skip metadata operand
                d = 0
                while p.peek() is not None:
                    if p.peek() in ('(', '{'): d += 1
                    if p.peek() in (')', '}') :
                        if d == 0: break
                        d -= 1
                    if p.peek() == ',' and d == 0: break
                    p.next()
                args.append((at, ('md', '')))
                continue
            args.append((at, p.val(at)))
        x = {'callee': callee, 'args': args, 'align': al}
        if op == 'invoke':
            while p.peek() != 'to': p.next()
            p.next(); p.exp('label'); x['normal'] = unq(p.next()); p.exp('unwind'); p.exp('label'); x['unwind'] = unq(p.next())
        return Ins(op, res, ty, (), x)
    if op == 'landingpad':
        ty = p.type(); cl = []
        while p.peek() in ('cleanup', 'catch', 'filter'):
            k = p.next()
            if k == 'cleanup': cl.append(('cleanup', None))
            else:
                t2 = p.type(); cl.append((k, p.val(t2)))
        return Ins('landingpad', res, ty, (), cl)
    if op == 'fence':
        return None
    if op in ('atomicrmw', 'cmpxchg', 'va_arg'):
        return Ins('unsupported', res, None, (), st)
    raise SyntaxError('ins? ' + st)


class Module:
    def __init__(self, text):
        self.funcs = {}
        self.decls = set()
        self.types = {}
        self.globals = {}
        self.gtext = {}
        self.md = {}
        self.aliases = {}
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            s = lines[i]
            if s.startswith('define '):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', s)
                name = m.group(1).strip('"')
                j = i + 1
                while lines[j] != '}':
                    j += 1
                self.funcs[name] = Func(name, self, s, lines[i + 1:j])
                i = j + 1
                continue
            if s.startswith('declare '):
                m = re.search(r'@("[^"]*"|[-\w.$]+)\(', s)
                self.decls.add(m.group(1).strip('"'))
            elif s.startswith('%') and ' = type ' in s:
                nm, rest = s.split(' = type ', 1)
                self.types[unq(nm)] = rest
            elif s.startswith('@'):
                nm, rest = s.split(' = ', 1)
                nm = unq(nm)
                if re.search(r'\balias\b', rest):
                    mm = re.search(r'ptr @("[^"]*"|[-\w.$]+)\s*$', rest)
                    if mm: self.aliases[nm[1:]] = mm.group(1).strip('"')
                self.gtext[nm[1:]] = rest
            elif s.startswith('!'):
                k, _, v = s.partition(' = ')
                self.md[k] = v
            i += 1
        self._tcache = {}
        self._lay = {}

    def named(self, name):
        t = self._tcache.get(name)
        if t is None:
            r = self.types[name]
            if r.strip() == 'opaque':
                t = ('struct', (), False)
            else:
                t = P(tokenize(r), self).type()
            self._tcache[name] = t
        return t

    def res(self, t):
        return self.named(t[1]) if t[0] == 'named' else t

    def layout(self, t):
        """(size, align, field offsets)"""
        r = self._lay.get(t)
        if r: return r
        k = t[0]
        if k == 'i':
            b = (t[1] + 7) // 8
            al = 1
            while al < b and al < 8: al *= 2
            if t[1] == 128: al = 16; b = 16
            r = (((b + al - 1) // al) * al, al, None)
        elif k == 'ptr': r = (8, 8, None)
        elif k == 'f':
            r = {'double': (8, 8, None), 'float': (4, 4, None), 'x86_fp80': (16, 16, None), 'half': (2, 2, None), 'fp128': (16, 16, None), 'bfloat': (2, 2, None)}[t[1]]
        elif k == 'arr':
            s, a, _ = self.layout(t[2]); r = (s * t[1], a, None)
        elif k == 'vec':
            s, a, _ = self.layout(t[2]); n = s * t[1]
            if t[2] == ('i', 1): n = (t[1] + 7) // 8
            al = 1
            while al < n: al *= 2
            r = (n, al, None)
        elif k == 'named': r = self.layout(self.named(t[1]))
        elif k == 'struct':
            off = 0; al = 1; offs = []
            for e in t[1]:
                s, a, _ = self.layout(e)
                if t[2]: a = 1
                off = (off + a - 1) // a * a
                offs.append(off); off += s; al = max(al, a)
            r = ((off + al - 1) // al * al, al, offs)
        else:
            raise SyntaxError('layout ' + str(t))
        self._lay[t] = r
        return r

    def sizeof(self, t):
        return self.layout(t)[0]
