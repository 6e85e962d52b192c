"""Models (assumed contracts) of external functions and intrinsics.  Every model used is reported as trusted."""
import re
from sx import *
from math import gcd
from loops import *

EXACT = {}
PATS = []


def model(*names):
    def d(fn):
        for n in names: EXACT[n] = fn
        return fn
    return d


def pat(rx):
    def d(fn):
        PATS.append((re.compile(rx), fn))
        return fn
    return d


_cache = {}


def find_model(self, name):
    if name in _cache: return _cache[name]
    m = EXACT.get(name)
    if m is None:
        for rx, fn in PATS:
            if rx.match(name): m = fn; break
    _cache[name] = m
    if m is not None and not name.startswith('llvm.') and not name.startswith('vk_'): self.trusted.add(name)
    return m


Engine.find_model = find_model


def ret(st, v=None): return [('ret', st, v)]


# ------------------------------------------------------------------ harness intrinsics
def nm(E, st, p): return E.cstring(st, p)


def declare(E, st, n, sort, lo=None, hi=None):
    """a contract input: each name at most once per path, always with the same range"""
    used = st.ghost.get('inputs', frozenset())
    if n in used: raise Unsupported(f'input {n} declared twice on one path')
    st.ghost['inputs'] = used | {n}
    if sort is None: return None
    if E.ranges.setdefault(n, (lo, hi)) != (lo, hi): raise Unsupported(f'input {n} declared with two different ranges')
    s = atom('sym', (n,), sort, lo, hi)
    E.inputs[n] = s
    return s


@model('vk_u64_')
def _(E, st, a, name, ins):
    n = nm(E, st, a[0])
    lo, hi = E.uns(st.pc, a[1], 64), E.uns(st.pc, a[2], 64)
    h = hi.cval() if hi.is_const() else None
    if h is None:      # a symbolic bound: its own largest value, the same on every path
        h = hi.iv()[1]
        if h is None or h < 0 or h >= 1 << 64: h = (1 << 64) - 1
        if n in E.ranges and h < E.ranges[n][1]: h = E.ranges[n][1]
    s = declare(E, st, n, 'I', lo.cval() if lo.is_const() else 0, h)
    st.assume(ge(pv(s) - lo)); st.assume(ge(hi - pv(s)))
    if not E.S.feasible(st.pc): return []
    return ret(st, pv(s))


@model('vk_i64_')
def _(E, st, a, name, ins):
    n = nm(E, st, a[0])
    lo, hi = E.sgn(st.pc, a[1], 64), E.sgn(st.pc, a[2], 64)
    s = declare(E, st, n, 'I', lo.cval() if lo.is_const() else -(1 << 63), hi.cval() if hi.is_const() else (1 << 63) - 1)
    st.assume(ge(pv(s) - lo)); st.assume(ge(hi - pv(s)))
    if not E.S.feasible(st.pc): return []
    return ret(st, pv(s))


@model('vk_f64_')
def _(E, st, a, name, ins):
    n = nm(E, st, a[0])
    s = declare(E, st, n, 'F')
    return ret(st, s)


@model('vk_f32_')
def _(E, st, a, name, ins):
    n = nm(E, st, a[0])
    s = declare(E, st, n, 'F')
    return ret(st, s)


KINDS = {0: (1, ('i', 8)), 1: (2, ('i', 16)), 2: (4, ('i', 32)), 3: (8, ('i', 64)), 4: (4, ('f', 'float')), 5: (8, ('f', 'double')), 6: (1, ('i', 8)), 7: (16, ('f', 'x86_fp80'))}


@model('vk_fill_')
def _(E, st, a, name, ins):
    """havoc n scalar cells of the given kind starting at p"""
    p, n, kind, nmp = a
    out = []
    for st, p in E.ptrs(st, p):
        nn = nm(E, st, nmp)
        es, ty = KINDS[kind.cval()]
        ln = E.uns(st.pc, n, 64) * es
        E.inputs[nn] = ('arr', es, ty)
        declare(E, st, nn, None)
        if p.r == 0:      # empty vector
            out.append(('ret', st, None)); continue
        E.bounds(st, p, ln, 'fill')
        src = base('sym', nn, es, ty)
        st.mem[p.r] = Node('Cp', st.mem[p.r], off=p.off, len=ln, src=src, soff=ZERO)
        out.append(('ret', st, None))
    return out


@model('vk_assume_')
def _(E, st, a, name, ins):
    c = E.tobool(a[0])
    if c == F: return []
    st = st.clone().assume(c)
    if not E.S.feasible(st.pc): return []
    return ret(st)


@model('vk_assert_')
def _(E, st, a, name, ins):
    c = E.tobool(a[0])
    what = nm(E, st, a[1])
    saved = E.curfn
    E.instantiate(st, c)
    E.covers[what] = E.covers.get(what, 0) + 1
    ok = E.obligation(st, c, 'contract', what)
    if c == F: return []
    st.assume(c)
    return ret(st)


def instantiate(E, st, goal):
    """instantiate 'for all earlier iterations' facts at the array cells the goal talks about"""
    if not st.forall: return
    sels = set()
    walk_any(goal, sels)
    sels0 = set(sels)
    pcs = st.pc.all()
    for f in pcs[-30:]: walk_any(f, sels)
    byname = {}
    for i in list(sels):
        a = A(i)
        if a.op == 'sel': byname.setdefault(a.args[0], []).append(a.args[1])
    todo, done = [(vs, f, ()) for vs, f in st.forall], 0
    probes = [pv(A(i)) for i in sorted(sels0) if A(i).op == 'sym' and A(i).sort == 'I']
    while todo:
        vs, f, hyp = todo.pop(0)
        (k, N), rest = vs[0], vs[1:]
        s = set()
        walk_any(f, s)
        for _, M in rest: walk_any(M, s)
        cand = set()         # (numerator, divisor): k = numerator / divisor
        for i in s:
            a = A(i)
            if a.op == 'sel' and a.args[0] in byname:
                ix = a.args[1]
                if not rest:
                    c = 0; b = ZERO; bad = False
                    for m, v in ix.d.items():
                        if m == (k.id,): c = v
                        elif k.id in m: bad = True
                        else: b = b + Poly({m: v})
                    if bad or not c: continue
                    for t in byname[a.args[0]]: cand.add((t - b, c) if c > 0 else (b - t, -c))
                    continue
                for m, v in ix.d.items():
                    # the outer variable of a nested fact: compare the coefficients of its stride
                    if m.count(k.id) != 1 or len(m) < 2: continue
                    sm = list(m); sm.remove(k.id)
                    P, own = coef(ix, tuple(sm)), 0
                    if P is None: continue
                    P = P - v * pv(k)
                    if any(x.id in _deep(P) for x, _ in vs): continue
                    for t in byname[a.args[0]]:
                        Q = coef(t, tuple(sm))
                        if Q is not None: cand.add((Q - P, v) if v > 0 else (P - Q, -v))
        if rest and not cand:
            for v in probes[:6]: cand.add((v, 1))
        for num, c in sorted(cand, key=repr):
            q = num.divc(c)
            if q is not None: sub, h = Subst({k.id: q}), ()
            else:
                q = pdivc(num, c)
                sub, h = Ratio(k, num, c, q), (eq(num - c * q),)
            h = hyp + h + (ge(q), ge(N - q - 1))
            if rest:
                if len(todo) < 60: todo.append((tuple((a, sub(M)) for a, M in rest), sub(f), h))
                continue
            g = disj(neg(conj(*h)), sub(f))
            if g == T: continue
            st.assume(g)
            done += 1
            if done > 60: return


def coef(p, sm):
    """the polynomial c with p = c * sm + (terms without sm)"""
    r = {}
    for m, v in p.d.items():
        l = list(m)
        try:
            for i in sm: l.remove(i)
        except ValueError: continue
        r[tuple(l)] = v
    return Poly(r) if r else None


class Ratio(Subst):
    """k := num / c, where c divides num; q is the quotient as a term"""

    def __init__(self, k, num, c, q):
        super().__init__({k.id: q})
        self.k, self.num, self.c = k.id, num, c

    def poly(self, p):
        r, out = {}, ZERO
        for m, v in p.d.items():
            n = m.count(self.k)
            if n == 1 and v % self.c == 0:
                l = list(m); l.remove(self.k)
                out = out + Poly({tuple(l): v // self.c}) * self.num
            else: r[m] = v
        return super().poly(Poly(r)) + (super().poly(out) if out.d else out)


def _deep(x):
    s = set(); walk_any(x, s); return s


Engine.instantiate = instantiate


@model('vk_near_')
def _(E, st, a, name, ins):
    import reals
    E.trusted.add('floating-point arithmetic as real arithmetic (vk::near)')
    return ret(st, reals.real_eq(*_small_counts(E, st, E.tofl(a[0]), E.tofl(a[1]))))


def _small_counts(E, st, *xs):
    """replace a loop count that the path condition pins to 0..2, so that short folds unroll"""
    at = set()
    for x in xs: walk_any(x, at)
    mp = {}
    for i in at:
        f = A(i)
        if f.op != 'fold': continue
        for k in _deep(f.args[2]):
            if k in mp or A(k).op != 'sym' or A(k).sort != 'I': continue
            for c in (0, 1, 2):
                if E.S.prove(st.pc, eq(pv(A(k)) - const(c))): mp[k] = const(c); break
    return [Subst(mp)(x) for x in xs] if mp else xs


@model('vk_cover_')
def _(E, st, a, name, ins):
    what = nm(E, st, a[0])
    E.covers['cover:' + what] = E.covers.get('cover:' + what, 0) + (1 if E.S.feasible(st.pc, True) else 0)
    return ret(st)


@model('vk_is_verify_')
def _(E, st, a, name, ins): return ret(st, T)


# ------------------------------------------------------------------ allocation
@model('_Znwm', '_Znam', 'malloc', '_ZnwmSt11align_val_t', '_ZnamSt11align_val_t', '_ZnwmRKSt9nothrow_t')
def _(E, st, a, name, ins):
    n = E.uns(st.pc, a[0], 64)
    r = E.new_region(st, 'heap', n, 'heap')
    return ret(st, Ptr(r, ZERO))


@pat(r'_Zd[la]Pv')
def _(E, st, a, name, ins):
    out = []
    for st, p in E.ptrs(st, a[0]):
        if isinstance(p, Ptr) and p.r != 0:
            if p.r in st.freed: E.fail(st, 'memory-safety', 'double free in ' + str(E.cur()))
            st.freed = st.freed | {p.r}
        out.append(('ret', st, None))
    return out


EXACT['free'] = PATS[-1][1]


# ------------------------------------------------------------------ exceptions
@model('__cxa_allocate_exception')
def _(E, st, a, name, ins):
    r = E.new_region(st, 'exn', None, 'heap')
    return ret(st, Ptr(r, ZERO))


@model('__cxa_free_exception', '__cxa_end_catch')
def _(E, st, a, name, ins):
    return ret(st)


@model('__cxa_throw')
def _(E, st, a, name, ins):
    st.exn = (E.gname(a[1]), a[0])
    return [('exn', st)]


@model('__cxa_rethrow')
def _(E, st, a, name, ins):
    if not st.caught: raise Unsupported('rethrow')
    st.exn = st.caught[-1]
    st.caught = st.caught[:-1]
    return [('exn', st)]


@model('__cxa_begin_catch')
def _(E, st, a, name, ins):
    st.caught = st.caught + (st.exn,)
    st.exn = None
    return ret(st, a[0])


@model('__cxa_get_exception_ptr')
def _(E, st, a, name, ins): return ret(st, a[0])


def gname(E, p):
    for n, (r, nd) in E.greg.items():
        if r == p.r: return n
    raise Unsupported('typeinfo')


Engine.gname = gname


@model('__clang_call_terminate', '_ZSt9terminatev', 'abort', '__cxa_pure_virtual', '__assert_fail')
def _(E, st, a, name, ins):
    if not E.races: E.fail(st, 'termination', f'{name} reached')
    return []


@pat(r'_ZSt\d+__throw_')
def _(E, st, a, name, ins):
    t = re.match(r'_ZSt(\d+)__throw_(.*)', name)
    base_ = t.group(2)
    base_ = base_[:int(t.group(1)) - 8]
    tab = {'length_error': '_ZTISt12length_error', 'out_of_range': '_ZTISt12out_of_range', 'out_of_range_fmt': '_ZTISt12out_of_range', 'bad_alloc': '_ZTISt9bad_alloc',
           'bad_array_new_length': '_ZTISt20bad_array_new_length', 'logic_error': '_ZTISt11logic_error', 'invalid_argument': '_ZTISt16invalid_argument',
           'bad_function_call': '_ZTISt17bad_function_call', 'bad_cast': '_ZTISt8bad_cast', 'runtime_error': '_ZTISt13runtime_error', 'domain_error': '_ZTISt12domain_error'}
    if base_ not in tab: raise Unsupported(name)
    return E.throw(st, tab[base_])


@pat(r'_ZNK?St(13runtime_error|11logic_error|12out_of_range|16invalid_argument|12length_error|9exception|12domain_error|14overflow_error|11range_error|9bad_alloc|20bad_array_new_length)[CD]')
def _(E, st, a, name, ins): return ret(st)


# ------------------------------------------------------------------ strings / streams: no effect on image data
#  ghost[('str', region, offset)] = the literal a std::string was built from (a constant pointer and its length)
STR = '_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE'
STRK = STR.replace('_ZN', '_ZNK')


@pat(r'_ZN?K?St7__cxx1112basic_string|_ZNSt7__cxx1119basic_[io]?stringstream|_ZNSt7__cxx1115basic_stringbuf|_ZNK?St7__cxx1118basic_stringstream|_ZNSt6localeD|_ZNSt6localeC|_ZNSt8ios_base|_ZNSt9basic_ios')
def _(E, st, a, name, ins):
    if not (a and isinstance(a[0], Ptr) and a[0].off.is_const() and name.startswith((STR, STRK))): return ret(st, E.opaque_ret(st, a, ins))
    key = ('str', a[0].r, a[0].off.cval())
    g = st.ghost.get(key)
    if name.startswith(STRK):
        op = name[len(STRK):]
        if g and op in ('4sizeEv', '6lengthEv'): return ret(st, const(g[1]))
        if g and op in ('4dataEv', '5c_strEv'): return ret(st, g[0])
        if g and op == '5emptyEv': return ret(st, T if g[1] == 0 else F)
        r = E.opaque_ret(st, a, ins)
        if g: st.ghost[key] = g
        return ret(st, r)
    op = name[len(STR):]
    new = None
    if len(a) > 1 and isinstance(a[1], Ptr) and a[1].off.is_const():
        if op in ('C2IS3_EEPKcRKS3_', 'C1IS3_EEPKcRKS3_') and ' constant ' in E.mod.gtext.get(E.regions[a[1].r].name[1:], ''): new = (a[1], len(E.cstring(st, a[1])))
        if op in ('C2ERKS4_', 'C1ERKS4_', 'C2EOS4_', 'C1EOS4_'): new = st.ghost.get(('str', a[1].r, a[1].off.cval()))
    r = E.opaque_ret(st, a, ins)
    if new: st.ghost[key] = new
    return ret(st, r)


def opaque_ret(E, st, a, ins):
    for k in [k for k in st.ghost if isinstance(k, tuple) and any(isinstance(x, Ptr) and x.r == k[1] for x in a)]: st.ghost.pop(k)
    t = ins.ty if ins is not None else ('void',)
    if t == ('void',): return None
    if t[0] == 'ptr': return a[0] if a and isinstance(a[0], Ptr) else Ptr(E.new_region(st, 'opaque', None, 'heap', base('opaque')), ZERO)
    if t == I1: return ba(fresh('ext', 'B'))
    if t[0] == 'i': return pv(fresh('ext', 'I', 0, (1 << t[1]) - 1))
    if t[0] == 'f': return fresh('ext', 'F')
    raise Unsupported('opaque ret ' + str(t))


Engine.opaque_ret = opaque_ret


@pat(r'_ZNK?7TinyDIP9Formatter|_ZNSo|_ZNKSo|_ZNSi|_ZStls|_ZStrs|_ZSt4endl|_ZSt5flush|_ZSt16__ostream_insert|_ZSt6vprint|_ZSt7vformat|_ZSt9__do_vf|_ZSt5print|_ZSt6formatI|_ZNSt8__format|_ZNKSt8__format|_ZSt18vprint|_ZSt20vprint|_ZSt11vprint|_ZStplIc')
def _(E, st, a, name, ins):
    return ret(st, E.opaque_ret(st, a, ins))


@model('puts', 'putchar', 'printf', 'fflush', '_ZNSt6chrono3_V212system_clock3nowEv', '_ZNSt6chrono3_V212steady_clock3nowEv')
def _(E, st, a, name, ins): return ret(st, E.opaque_ret(st, a, ins))


# ------------------------------------------------------------------ memory intrinsics
@pat(r'llvm\.mem(cpy|move)|^(memcpy|memmove)$')
def _(E, st, a, name, ins):
    return [('ret', s, a[0]) for s in E.memcpy(st, a[0], a[1], a[2], ins.x.get('align', 8) if ins is not None else 8)]


@pat(r'llvm\.memset|^memset$')
def _(E, st, a, name, ins):
    return [('ret', s, a[0]) for s in E.memset(st, a[0], a[1], a[2])]


@pat(r'llvm\.lifetime\.start')
def _(E, st, a, name, ins):
    p = a[1]
    if isinstance(p, Ptr) and not p.off.d and E.regions[p.r].kind == 'stack': st.mem[p.r] = base('undef', r=p.r)
    return ret(st)


@pat(r'llvm\.(lifetime\.end|dbg|experimental\.noalias|invariant|stackrestore|donothing|prefetch)')
def _(E, st, a, name, ins): return ret(st)


@pat(r'llvm\.stacksave')
def _(E, st, a, name, ins): return ret(st, NULL)


@pat(r'llvm\.assume')
def _(E, st, a, name, ins):
    return ret(st)


@pat(r'llvm\.expect')
def _(E, st, a, name, ins): return ret(st, a[0])


@pat(r'llvm\.(launder|strip)\.invariant')
def _(E, st, a, name, ins): return ret(st, a[0])


@pat(r'llvm\.(trap|debugtrap|ubsantrap)')
def _(E, st, a, name, ins):
    E.fail(st, 'termination', 'trap reached')
    return []


@pat(r'llvm\.eh\.typeid\.for')
def _(E, st, a, name, ins): return ret(st, const(E.typeid(E.gname(a[0]))))


@pat(r'llvm\.(u|s)(min|max)\.i(\d+)$')
def _(E, st, a, name, ins):
    m = re.match(r'llvm\.(u|s)(min|max)\.i(\d+)$', name)
    n = int(m.group(3))
    c = E.uns if m.group(1) == 'u' else E.sgn
    x, y = c(st.pc, E.toint(a[0], n), n), c(st.pc, E.toint(a[1], n), n)
    f = le(x, y)
    if f not in (T, F):
        if E.S.prove(st.pc, f): f = T
        elif E.S.prove(st.pc, neg(f)): f = F
    r = ite(f, x, y) if m.group(2) == 'min' else ite(f, y, x)
    return ret(st, norm(r, n))


@pat(r'llvm\.abs\.i(\d+)$')
def _(E, st, a, name, ins):
    n = int(name.rsplit('.i', 1)[1])
    x = E.sgn(st.pc, E.toint(a[0], n), n)
    return ret(st, norm(ite(ge(x), x, -x), n))


@pat(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)')
def _(E, st, a, name, ins):
    m = re.match(r'llvm\.(u|s)(add|sub|mul)\.with\.overflow\.i(\d+)', name)
    n = int(m.group(3))
    c = E.uns if m.group(1) == 'u' else E.sgn
    x, y = c(st.pc, E.toint(a[0], n), n), c(st.pc, E.toint(a[1], n), n)
    r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y}[m.group(2)]()
    lo, hi = (0, (1 << n) - 1) if m.group(1) == 'u' else (-(1 << (n - 1)), (1 << (n - 1)) - 1)
    ov = neg(conj(ge(r - lo), ge(hi - r)))
    if E.S.prove(st.pc, neg(ov)): ov = F
    return ret(st, Agg((norm(r, n), ov)))


@pat(r'llvm\.u(sub|add)\.sat\.i(\d+)')
def _(E, st, a, name, ins):
    m = re.match(r'llvm\.u(sub|add)\.sat\.i(\d+)', name)
    n = int(m.group(2))
    x, y = E.uns(st.pc, E.toint(a[0], n), n), E.uns(st.pc, E.toint(a[1], n), n)
    if m.group(1) == 'sub': return ret(st, ite(ge(x - y), x - y, ZERO))
    return ret(st, ite(ge((1 << n) - 1 - x - y), x + y, const((1 << n) - 1)))


@pat(r'llvm\.(ctlz|cttz|ctpop|bswap|fshl|fshr|bitreverse)')
def _(E, st, a, name, ins):
    n = ins.ty[1]
    xs = tuple(E.uns(st.pc, E.toint(x, n), n) for x in a if isinstance(x, Poly))
    return ret(st, pv(atom('fapp', (name,) + xs, 'I', 0, (1 << n) - 1)))


@pat(r'llvm\.(fabs|sqrt|floor|ceil|trunc|round|rint|nearbyint|sin|cos|exp|exp2|log|log2|log10|pow|fma|fmuladd|copysign|minnum|maxnum|minimum|maximum|powi|roundeven|ldexp)\.')
def _(E, st, a, name, ins):
    fs = [E.tofl(x) if not isinstance(x, Poly) else x for x in a]
    if name.startswith('llvm.fmuladd.'):
        k = 'double' if 'f64' in name else 'float'
        return ret(st, E.fbin('fadd', E.fbin('fmul', fs[0], fs[1], k), fs[2], k))
    return ret(st, E.fapp(name, *fs))


MATH1 = 'sin cos tan asin acos atan sinh cosh tanh exp exp2 log log2 log10 sqrt cbrt floor ceil round trunc rint fabs erf erfc logb tgamma lgamma expm1 log1p nearbyint asinh acosh atanh'.split()
MATH2 = 'pow fmod atan2 hypot fmax fmin copysign remainder fdim'.split()


def _mathf(E, st, a, name, ins):
    return ret(st, E.fapp('m_' + name, *[E.tofl(x) for x in a]))


for _m in MATH1 + MATH2:
    for _s in ('', 'f', 'l'): EXACT[_m + _s] = _mathf


for _s in ('', 'f', 'l'):
    EXACT['ilogb' + _s] = lambda E, st, a, name, ins: ret(st, pv(E.fapp('m_' + name, *[E.tofl(x) for x in a], sort='I', lo=0, hi=(1 << 32) - 1)))


@pat(r'llvm\.is\.fpclass')
def _(E, st, a, name, ins):
    return ret(st, ba(atom('fapp', (name, E.tofl(a[0]), a[1]), 'B')))


@pat(r'llvm\.is\.constant')
def _(E, st, a, name, ins): return ret(st, F)


@pat(r'llvm\.objectsize')
def _(E, st, a, name, ins): return ret(st, const(-1))


@pat(r'llvm\.vector\.reduce\.(add|mul|and|or|xor|umax|umin|smax|smin)')
def _(E, st, a, name, ins):
    m = name.split('.')[3]
    ty = ins.ty
    v = a[0].e
    r = v[0]
    for x in v[1:]:
        if m in ('add', 'mul', 'and', 'or', 'xor'): r = E.bin(st.pc, m, set(), ty, r, x)
        else: raise Unsupported(name)
    return ret(st, r)


@model('memcmp', 'bcmp')
def _(E, st, a, name, ins):
    return memcmp_model(E, st, a)


def memcmp_model(E, st, a):
    """result 0 iff all bytes agree (compared element-wise; the sign of a non-zero result is unspecified)"""
    out = []
    n = E.uns(st.pc, a[2], 64)
    for st, p in E.ptrs(st, a[0]):
        for st, q in E.ptrs(st, a[1]):
            for st, nz in E.split(st, ge(n - 1)):
                if not nz: out.append(('ret', st, ZERO)); continue
                if not E.bounds(st, p, n, 'compare') or not E.bounds(st, q, n, 'compare'): continue
                if n.is_const() and n.cval() <= 64:
                    c = n.cval()
                    es = 8
                    while c % es: es //= 2
                    cs = [(st, T)]
                    for o in range(0, c, es):
                        ns = []
                        for s1, f in cs:
                            for s2, x in E._load(s1, Ptr(p.r, p.off + o), ('i', 8 * es), es):
                                for s3, y in E._load(s2, Ptr(q.r, q.off + o), ('i', 8 * es), es):
                                    ns.append((s3, conj(f, E.icmp(s3.pc, 'eq', ('i', 8 * es), x, y))))
                        cs = ns
                    for s1, f in cs: out.append(('ret', s1, ite(f, ZERO, ONE)))
                    continue
                g = 0
                for m, v in n.d.items(): g = gcd(g, v)
                es = 8
                while g % es: es //= 2
                N = n.divc(es)

                def cond(pc, kk):
                    r = []
                    for pc1, x in E.read(pc, st.mem[p.r], p.off + es * pv(kk), es, ('i', 8 * es)):
                        for pc2, y in E.read(pc1, st.mem[q.r], q.off + es * pv(kk), es, ('i', 8 * es)):
                            r.append((pc2, E.icmp(pc2, 'eq', ('i', 8 * es), x, y)))
                    return r
                hi = N.iv()[1]
                kk = fresh('k', 'I', 0, hi)
                pc0 = st.pc.add(ge(N - pv(kk) - 1))
                r = cond(pc0, kk)
                parts = []
                for pc2, f in r:
                    fs = []
                    while pc2 is not pc0: fs.append(pc2.f); pc2 = pc2.parent
                    parts.append(disj(neg(conj(*fs)), f))
                se = st.clone()
                se.forall = se.forall + ((((kk, N),), conj(*parts)),)
                out.append(('ret', se, ZERO))
                jj = fresh('d', 'I', 0, hi)
                sd = st.clone().assume(ge(N - pv(jj) - 1))
                for pc2, f in cond(sd.pc, jj):
                    s2 = sd.clone(); s2.pc = pc2; s2.assume(neg(f))
                    if E.S.feasible(s2.pc): out.append(('ret', s2, ONE))
    return out


@model('__gxx_personality_v0')
def _(E, st, a, name, ins): raise Unsupported('personality')


@model('__cxa_guard_acquire')
def _(E, st, a, name, ins): return ret(st, ONE)


@model('__cxa_guard_release', '__cxa_guard_abort', '__cxa_atexit')
def _(E, st, a, name, ins): return ret(st, ZERO)


# ------------------------------------------------------------------ vector growth, locks
@pat(r'_ZNKSt6vectorI.*12_M_check_lenEmPKc$')
def _(E, st, a, name, ins):
    """one element appended to a full vector: any larger capacity is allowed; take one that is never exhausted"""
    if not re.search('_M_realloc_(append|insert)', E.curfn or ''): return NotImplemented
    return ret(st, const(1 << 50))


@model('pthread_mutex_lock', 'pthread_mutex_unlock')
def _(E, st, a, name, ins): return ret(st, ZERO)


# ------------------------------------------------------------------ files: one file, whatever its name
#  ghost['file'] = (exists, region of its bytes, region of its length); ghost['open'] = number of open handles
#  a FILE is a region holding the position; opening an existing file succeeds, writing never fails
FI64 = ('i', 64)


def _fcell(E, st, r):
    out = E._load(st, Ptr(r, ZERO), FI64, 8)
    return [(s, E.uns(s.pc, v, 64)) for s, v in out]


def _fset(E, st, r, v): E._store(st, Ptr(r, ZERO), FI64, 8, v)


def _handle(E, st, p, what):
    if not isinstance(p, Ptr) or p.r == 0 or E.regions[p.r].name != 'FILE':
        E.fail(st, 'memory-safety', f'{what} without an open file in {E.cur()}')
        return False
    if p.r in st.freed:
        E.fail(st, 'memory-safety', f'{what} after fclose in {E.cur()}')
        return False
    return True


@model('fopen', 'fopen64')
def _(E, st, a, name, ins):
    st = st.clone()
    mode = E.cstring(st, a[1])
    f = st.ghost.get('file')
    if mode[:1] == 'w':
        c = E.new_region(st, 'file', None, 'heap')
        l = E.new_region(st, 'filelen', const(8), 'heap')
        _fset(E, st, l, ZERO)
        st.ghost['file'] = (c, l)
    elif mode[:1] == 'r' and '+' not in mode:
        if f is None: return ret(st, NULL)
    else: raise Unsupported('fopen mode ' + mode)
    h = E.new_region(st, 'FILE', const(8), 'heap')
    _fset(E, st, h, ZERO)
    st.ghost['open'] = st.ghost.get('open', 0) + 1
    return ret(st, Ptr(h, ZERO))


@model('fclose')
def _(E, st, a, name, ins):
    out = []
    for st, p in E.ptrs(st, a[0]):
        if not _handle(E, st, p, 'fclose'): continue
        st = st.clone()
        st.freed = st.freed | {p.r}
        st.ghost['open'] = st.ghost.get('open', 0) - 1
        out.append(('ret', st, ZERO))
    return out


@model('fwrite')
def _(E, st, a, name, ins):
    out = []
    for st, src in E.ptrs(st, a[0]):
        for st, p in E.ptrs(st, a[3]):
            if not _handle(E, st, p, 'fwrite'): continue
            n = E.uns(st.pc, a[2], 64)
            total = n * E.uns(st.pc, a[1], 64)
            c, l = st.ghost['file']
            for st, pos in _fcell(E, st, p.r):
                for st, ln in _fcell(E, st, l):
                    if not (pos == ln or E.S.prove(st.pc, eq(pos - ln))): raise Unsupported('fwrite not at the end')
                    st = st.clone()
                    if not E.bounds(st, src, total, 'fwrite'): continue
                    st.mem[c] = Node('Cp', st.mem[c], off=pos, len=total, src=st.mem[src.r], soff=src.off)
                    _fset(E, st, p.r, pos + total)
                    _fset(E, st, l, pos + total)
                    out.append(('ret', st, n))
    return out


@model('fread')
def _(E, st, a, name, ins):
    out = []
    for st, dst in E.ptrs(st, a[0]):
        for st, p in E.ptrs(st, a[3]):
            if not _handle(E, st, p, 'fread'): continue
            n = E.uns(st.pc, a[2], 64)
            es = E.uns(st.pc, a[1], 64)
            total = n * es
            c, l = st.ghost['file']
            for st, pos in _fcell(E, st, p.r):
                for st, ln in _fcell(E, st, l):
                    st = st.clone()
                    if not E.bounds(st, dst, total, 'fread'): continue
                    for s2, whole in E.split(st, ge(ln - pos - total)):
                        if whole:
                            s2 = s2.clone()
                            s2.mem[dst.r] = Node('Cp', s2.mem[dst.r], off=dst.off, len=total, src=s2.mem[c], soff=pos)
                            _fset(E, s2, p.r, pos + total)
                            out.append(('ret', s2, n))
                            continue
                        for s3, some in E.split(s2, ge(ln - pos - 1)):
                            if not some: out.append(('ret', s3, ZERO)); continue
                            if not es.is_const(): raise Unsupported('fread item size')
                            s3 = s3.clone()
                            s3.mem[dst.r] = Node('Cp', s3.mem[dst.r], off=dst.off, len=ln - pos, src=s3.mem[c], soff=pos)
                            _fset(E, s3, p.r, ln)
                            out.append(('ret', s3, pdivc(ln - pos, es.cval())))
    return out


@model('fseek')
def _(E, st, a, name, ins):
    out = []
    for st, p in E.ptrs(st, a[0]):
        if not _handle(E, st, p, 'fseek'): continue
        w = a[2]
        if not (isinstance(w, Poly) and w.is_const() and w.cval() == 0): raise Unsupported('fseek whence')
        st = st.clone()
        _fset(E, st, p.r, E.uns(st.pc, a[1], 64))
        out.append(('ret', st, ZERO))
    return out


@model('vk_open_files_')
def _(E, st, a, name, ins): return ret(st, const(st.ghost.get('open', 0)))


@pat(r'_ZNK?St10filesystem')
def _(E, st, a, name, ins):
    return ret(st, E.opaque_ret(st, a, ins))


# ---------------------------------------------------------- parallel loops (C21): OpenMP as outlined by clang, execution policies by vk_par.h
def _fname(E, p):
    if not isinstance(p, FPtr): raise Unsupported('indirect parallel body')
    return p.n


@model('vk_iteration_')
def _(E, st, a, name, ins):
    if E.par is None:
        it = fresh('it', 'I', 0, 1 << 62)
        s = st.clone().assume(ge(a[2] - pv(it) - 1))
        if E.S.feasible(s.pc): E.iteration(s, it, lambda s: E.call(s, _fname(E, a[0]), [a[1], pv(it)]))
    return ret(st)


@model('__kmpc_fork_call')
def _(E, st, a, name, ins):
    tid = Ptr(E.new_region(st, 'thread-id', const(4), 'stack'), ZERO)
    E._store(st, tid, ('i', 32), 4, ZERO)
    args = [tid, tid] + list(a[3:])
    if E.par is None:
        it = fresh('it', 'I', 0, 1 << 62)
        s = st.clone()
        s.ghost['omp'] = pv(it)
        E.iteration(s, it, lambda s: E.call(s, _fname(E, a[2]), list(args)))
    st.ghost['omp'] = None
    out = E.call(st, _fname(E, a[2]), args)
    return out


@pat(r'__kmpc_for_static_init_[48]u?')
def _(E, st, a, name, ins):
    it = st.ghost.get('omp')
    if it is None: return ret(st)
    w = 8 if '_8' in name else 4
    ty = ('i', 8 * w)
    out = []
    for s1, lo in E.load(st, a[4], ty):
        for s2, hi in E.load(s1, a[5], ty):
            s2.assume(ge(it - lo)).assume(ge(hi - it))
            if not E.S.feasible(s2.pc): continue
            for p in (a[4], a[5]): E._store(s2, p, ty, w, it)
            out.append(('ret', s2, None))
    return out


@pat(r'__kmpc_dispatch_init_[48]u?')
def _(E, st, a, name, ins):
    st.ghost['dispatch'] = (a[3], a[4])
    return ret(st)


@pat(r'__kmpc_dispatch_next_[48]u?')
def _(E, st, a, name, ins):
    """hands out the whole range (or the one iteration under scrutiny) at once, then ends"""
    d = st.ghost.get('dispatch')
    st.ghost['dispatch'] = None
    if d is None: return ret(st, ZERO)
    lo, hi = d
    it = st.ghost.get('omp')
    end = st.clone()
    out = []
    st.assume(ge(hi - lo))
    if it is not None:
        st.assume(ge(it - lo)).assume(ge(hi - it))
        lo = hi = it
    else:
        end.assume(ge(lo - hi - 1))
        if E.S.feasible(end.pc): out.append(('ret', end, ZERO))
    if E.S.feasible(st.pc):
        w = 8 if '_8' in name else 4
        E._store(st, a[2], ('i', 32), 4, const(1))
        for p, v in ((a[3], lo), (a[4], hi), (a[5], const(1))): E._store(st, p, ('i', 8 * w), w, v)
        out.append(('ret', st, const(1)))
    return out


@model('__kmpc_for_static_fini', '__kmpc_push_num_threads')
def _(E, st, a, name, ins): return ret(st)


@model('__kmpc_global_thread_num', 'omp_get_thread_num')
def _(E, st, a, name, ins): return ret(st, ZERO)


@pat(r'__mul[xds]c3$')
def _(E, st, a, name, ins):
    """complex product without the recovery of infinities from NaN (assumption: complex multiplication is mathematical)"""
    k = {'x': 'x86_fp80', 'd': 'double', 's': 'float'}[name[5]]
    p, q, r, s = [E.tofl(x) for x in a]
    return ret(st, Agg([E.fbin('fsub', E.fbin('fmul', p, r, k), E.fbin('fmul', q, s, k), k), E.fbin('fadd', E.fbin('fmul', p, s, k), E.fbin('fmul', q, r, k), k)]))
