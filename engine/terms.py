"""Hash-consed atoms, integer polynomials over them, and formulas."""
from math import gcd


class Atom:
    __slots__ = ('id', 'op', 'args', 'sort', 'lo', 'hi', 'nm')

    def __repr__(self):
        return self.nm if self.nm else f'{self.op}({",".join(map(str, self.args))})'

    def __lt__(self, o):
        return self.id < o.id


_atoms = {}
_list = []


def atom(op, args, sort='I', lo=None, hi=None):
    k = (op, args, sort)
    a = _atoms.get(k)
    if a is None:
        a = Atom()
        a.id = len(_list)
        a.op, a.args, a.sort, a.lo, a.hi = op, args, sort, lo, hi
        a.nm = args[0] if op == 'sym' else None
        _atoms[k] = a
        _list.append(a)
    else:
        if lo is not None and (a.lo is None or lo > a.lo): a.lo = lo
        if hi is not None and (a.hi is None or hi < a.hi): a.hi = hi
    return a


_fresh = [0]


def fresh(prefix, sort='I', lo=None, hi=None):
    _fresh[0] += 1
    return atom('sym', (f'{prefix}#{_fresh[0]}',), sort, lo, hi)


class Poly:
    __slots__ = ('d', 'h', '_iv')

    def __init__(self, d):
        self.d = d
        self.h = hash(frozenset(d.items()))
        self._iv = None

    def __hash__(self): return self.h

    def __eq__(self, o): return isinstance(o, Poly) and self.h == o.h and self.d == o.d

    def __add__(self, o):
        if isinstance(o, int): o = const(o)
        a, b = self.d, o.d
        if not b: return self
        if not a: return o
        r = dict(a)
        for m, c in b.items():
            v = r.get(m, 0) + c
            if v: r[m] = v
            else: del r[m]
        return Poly(r)

    __radd__ = __add__

    def __neg__(self): return Poly({m: -c for m, c in self.d.items()})

    def __sub__(self, o):
        if isinstance(o, int): o = const(o)
        return self + (-o)

    def __rsub__(self, o): return (-self) + o

    def __mul__(self, o):
        if isinstance(o, int):
            if o == 0: return ZERO
            return Poly({m: c * o for m, c in self.d.items()})
        r = {}
        for m, c in self.d.items():
            for m2, c2 in o.d.items():
                mm = m + m2 if not m or not m2 else tuple(sorted(m + m2))
                v = r.get(mm, 0) + c * c2
                if v: r[mm] = v
                else: del r[mm]
        return Poly(r)

    __rmul__ = __mul__

    def is_const(self): return not self.d or (len(self.d) == 1 and () in self.d)

    def cval(self): return self.d.get((), 0)

    def monos(self): return self.d

    def atoms(self):
        s = set()
        for m in self.d: s.update(m)
        return s

    def deg(self): return max((len(m) for m in self.d), default=0)

    def __repr__(self):
        if not self.d: return '0'
        out = []
        for m, c in sorted(self.d.items(), key=lambda x: (len(x[0]), x[0])):
            s = '*'.join(repr(_list[i]) for i in m)
            out.append(f'{c}' if not m else (s if c == 1 else f'{c}*{s}'))
        return ' + '.join(out)

    def divc(self, c):
        """exact division by integer constant, or None"""
        r = {}
        for m, v in self.d.items():
            if v % c: return None
            r[m] = v // c
        return Poly(r)

    def iv(self):
        """interval from atom bounds"""
        if self._iv is not None:
            return self._iv
        lo = hi = 0
        for m, c in self.d.items():
            a, b = 1, 1
            for i in m:
                x = _list[i]
                a, b = _ivmul(a, b, x.lo, x.hi)
            if c < 0: a, b = (None if b is None else b * c), (None if a is None else a * c)
            else: a, b = (None if a is None else a * c), (None if b is None else b * c)
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
        self._iv = (lo, hi)
        return self._iv


def _ivmul(a, b, c, d):
    if a is not None and c is not None and a >= 0 and c >= 0:
        return a * c, (None if b is None or d is None else b * d)
    if None in (a, b, c, d): return None, None
    v = (a * c, a * d, b * c, b * d)
    return min(v), max(v)


_consts = {}


def const(n):
    p = _consts.get(n)
    if p is None:
        p = Poly({(): n} if n else {})
        _consts[n] = p
    return p


ZERO = const(0)
ONE = const(1)


def pv(a): return Poly({(a.id,): 1})


def A(i): return _list[i]


# ---------------------------------------------------------------- formulas
T = ('T',)
F = ('F',)


def ge(p):
    if p.is_const(): return T if p.cval() >= 0 else F
    lo, hi = p.iv()
    if lo is not None and lo >= 0: return T
    if hi is not None and hi < 0: return F
    # normalise by gcd
    return ('ge', p)


def eq(p):
    if p.is_const(): return T if p.cval() == 0 else F
    lo, hi = p.iv()
    if (lo is not None and lo > 0) or (hi is not None and hi < 0): return F
    m = min(p.d)
    if p.d[m] < 0: p = -p
    return ('eq', p)


def lt(a, b): return ge(b - a - 1)
def le(a, b): return ge(b - a)


def neg(f):
    k = f[0]
    if k == 'T': return F
    if k == 'F': return T
    if k == 'not': return f[1]
    if k == 'ge': return ge(-f[1] - 1)
    if k == 'and': return disj(*[neg(x) for x in f[1]])
    if k == 'or': return conj(*[neg(x) for x in f[1]])
    return ('not', f)


def conj(*fs):
    out = []
    for f in fs:
        if f is T or f == T: continue
        if f == F: return F
        if f[0] == 'and': 
            for g in f[1]:
                if g not in out: out.append(g)
        elif f not in out: out.append(f)
    for f in out:
        if neg1(f) in out: return F
    if not out: return T
    if len(out) == 1: return out[0]
    return ('and', tuple(out))


def neg1(f):
    if f[0] in ('and', 'or'): return None
    return neg(f)


def disj(*fs):
    out = []
    for f in fs:
        if f == F: continue
        if f == T: return T
        if f[0] == 'or':
            for g in f[1]:
                if g not in out: out.append(g)
        elif f not in out: out.append(f)
    for f in out:
        if neg1(f) in out: return T
    if not out: return F
    if len(out) == 1: return out[0]
    return ('or', tuple(out))


def ba(a): return ('b', a)


def feq(a, b):
    """identity of two opaque (float) terms"""
    if a is b: return T
    if a.op == 'fconst' and b.op == 'fconst': return F
    for k in ('double', 'float'):
        if (a.op == 'fconst' and a.args[1] != k) or (b.op == 'fconst' and b.args[1] != k): continue
        x = dy(a, k); y = x and dy(b, k)
        if x and y:
            p, q, e = _al(x, y)
            return eq(p - q)
    if a.id > b.id: a, b = b, a
    return ('feq', a, b)


# ---------------------------------------------------------------- traversal
def walk_atoms(x, out, seen=None):
    """all atoms (deep) in a Poly / formula / Atom / value; ids put in out"""
    if isinstance(x, Poly):
        for m in x.d:
            for i in m: walk_atoms(A(i), out)
    elif isinstance(x, Atom):
        if x.id in out: return
        out.add(x.id)
        for y in x.args: walk_atoms(y, out)
    elif isinstance(x, tuple):
        for y in x: walk_atoms(y, out)


class Subst:
    """substitute atoms (by id) with Poly (sort I) or Atom/formula (others)"""

    def __init__(self, mp, hook=None):
        self.mp = mp
        self.memo = {}
        self.hook = hook

    def __call__(self, x):
        if isinstance(x, Poly): return self.poly(x)
        if isinstance(x, Atom):
            r = self.at(x)
            if isinstance(r, Poly) and x.sort != 'I': return r
            return r
        if isinstance(x, tuple): return self.form(x) if x and isinstance(x[0], str) and x[0] in _FK else tuple(self(y) for y in x)
        if hasattr(x, 'subst'): return x.subst(self)
        return x

    def at(self, a):
        if a.id in self.mp: return self.mp[a.id]
        if a.op == 'sym' or not a.args: return pv(a) if a.sort == 'I' else a
        r = self.memo.get(a.id)
        if r is not None: return r
        na = tuple(self(y) for y in a.args)
        if na == a.args:
            r = pv(a) if a.sort == 'I' else a
        else:
            r = rebuild(a, na)
        self.memo[a.id] = r
        return r

    def poly(self, p):
        if not p.d: return p
        ch = False
        for m in p.d:
            for i in m:
                if i in self.mp: ch = True; break
                a = A(i)
                if a.op != 'sym' and a.args:
                    r = self.at(a)
                    if not (isinstance(r, Poly) and len(r.d) == 1 and r.d.get((i,)) == 1): ch = True; break
            if ch: break
        if not ch: return p
        acc = ZERO
        rest = {}
        for m, c in p.d.items():
            t = const(c)
            for i in m: t = t * self.at(A(i))
            acc = acc + t
        return acc

    def form(self, f):
        k = f[0]
        if k in ('T', 'F'): return f
        if k == 'ge': return ge(self.poly(f[1]))
        if k == 'eq': return eq(self.poly(f[1]))
        if k == 'not': return neg(self.form(f[1]))
        if k == 'and': return conj(*[self.form(x) for x in f[1]])
        if k == 'or': return disj(*[self.form(x) for x in f[1]])
        if k == 'b':
            r = self(f[1])
            return ba(r) if isinstance(r, Atom) else r
        if k == 'feq': return feq(self(f[1]), self(f[2]))
        raise ValueError(f)


_FK = {'T', 'F', 'ge', 'eq', 'not', 'and', 'or', 'b', 'feq'}
_rebuild = {}


def rebuild(a, na):
    h = _rebuild.get(a.op)
    if h: return h(a, na)
    r = atom(a.op, na, a.sort, a.lo, a.hi)
    return pv(r) if a.sort == 'I' else r


def ite(c, x, y):
    """int ite"""
    if c == T: return x
    if c == F: return y
    if x == y: return x
    lx, hx = x.iv(); ly, hy = y.iv()
    lo = None if lx is None or ly is None else min(lx, ly)
    hi = None if hx is None or hy is None else max(hx, hy)
    return pv(atom('ite', (c, x, y), 'I', lo, hi))


def fite(c, x, y):
    if c == T: return x
    if c == F: return y
    if x is y: return x
    return atom('fite', (c, x, y), x.sort)


_rebuild['ite'] = lambda a, na: ite(*na)
_rebuild['fite'] = lambda a, na: fite(*na)


def pmod(p, c):
    """p mod constant c > 0"""
    if p.is_const(): return const(p.cval() % c)
    p = Poly({m: v % c for m, v in p.d.items() if v % c})
    if p.is_const(): return const(p.cval() % c)
    lo, hi = p.iv()
    if lo is not None and hi is not None and lo >= 0 and hi < c: return p
    p = Poly({m: v - c if m and 2 * v > c else v for m, v in p.d.items()})        # one form for -x and (c-1)*x
    # (v*(x mod m1) + ..) mod c  =  (v*x + ..) mod c  when c divides v*m1
    for m, v in p.d.items():
        if len(m) == 1:
            a = A(m[0])
            if a.op == 'modc' and (v * a.args[1]) % c == 0:
                return pmod(p - Poly({m: v}) + v * a.args[0], c)
    # (g*Q + y) mod (g*c')  =  g*(Q mod c') + y  when 0 <= y < g
    for g in sorted({gcd(v, c) for m, v in p.d.items()} - {1}, reverse=True):
        y = Poly({m: (v if m else v % g) for m, v in p.d.items() if v % g})
        Q = (p - y).divc(g)
        lo, hi = y.iv()
        if Q.d and lo is not None and hi is not None and lo >= 0 and hi < g and (g < c):
            return g * pmod(Q, c // g) + y
    return pv(atom('modc', (p, c), 'I', 0, c - 1))


def pdivc(p, c):
    """floor(p / constant c>0)"""
    if p.is_const(): return const(p.cval() // c)
    if c == 1: return p
    q = {m: v // c for m, v in p.d.items() if v % c == 0 or False}
    rem = Poly({m: v for m, v in p.d.items() if v % c})
    qp = Poly({m: v // c for m, v in p.d.items() if v % c == 0})
    lo, hi = rem.iv()
    if lo is not None and hi is not None and lo // c == hi // c: return qp + const(lo // c)
    # (g*Q + y) div (g*c')  =  Q div c'  when 0 <= y < g
    g = c
    for m, v in rem.d.items():
        if m: g = gcd(g, v)
    if g > 1:
        y = const(rem.d.get((), 0) % g)
        return qp + pdivc((rem - y).divc(g), c // g)
    l2 = None if lo is None else lo // c
    h2 = None if hi is None else hi // c
    return qp + pv(atom('divc', (rem, c), 'I', l2, h2))


_rebuild['modc'] = lambda a, na: pmod(na[0], na[1])
_rebuild['divc'] = lambda a, na: pdivc(na[0], na[1])


def pdiv(p, d):
    """floor(p/d), d symbolic (d>0 guaranteed by caller)"""
    if d.is_const() and d.cval() > 0: return pdivc(p, d.cval())
    if p.is_const() and p.cval() == 0: return ZERO
    q, r = polydivmod(p, d)
    lo, hi = r.iv()
    a = atom('div', (r, d), 'I', 0 if lo is not None and lo >= 0 else None, hi if lo is not None and lo >= 0 else None)
    return q + pv(a) if r.d else q


def pmods(p, d):
    if d.is_const() and d.cval() > 0: return pmod(p, d.cval())
    q, r = polydivmod(p, d)
    if not r.d: return ZERO
    hi = d.iv()[1]
    return pv(atom('mod', (r, d), 'I', 0, None if hi is None else hi - 1))


_rebuild['div'] = lambda a, na: pdiv(na[0], na[1])
_rebuild['mod'] = lambda a, na: pmods(na[0], na[1])


def lead(p):
    return max(p.d, key=lambda m: (len(m), m))


def polydivmod(p, d):
    """polynomial division by leading monomial of d: p = q*d + r, no monomial of r divisible by lead(d)"""
    ld = lead(d)
    lc = d.d[ld]
    if ld == ():
        return ZERO, p
    q = ZERO
    for _ in range(50):
        hit = None
        for m, c in p.d.items():
            if c % lc == 0:
                rest = _mdiv(m, ld)
                if rest is not None:
                    hit = (rest, c // lc); break
        if hit is None: break
        t = Poly({hit[0]: hit[1]})
        q = q + t
        p = p - t * d
    return q, p


def _mdiv(m, d):
    r = list(m)
    for i in d:
        if i in r: r.remove(i)
        else: return None
    return tuple(r)


# ------------------------------------------------------------------ floating point: exact fragment
# A double is "dyadic" when it provably equals p / 2^k for an integer polynomial p with |p| <= 2^53: conversions of small
# integers, sums, differences, squares, products of non-negative values or by positive constants, divisions by powers of two, floor/ceil.  Such operations are exact in IEEE
# arithmetic, so they are evaluated over the integers.  Every other floating operation stays an uninterpreted function.
import struct as _struct, math as _math
_EX = {'double': 53, 'float': 24}
_SFX = {'f64': 'double', 'f32': 'float'}


def fval(v, k): return atom('fconst', ('%016x' % _struct.unpack('<Q', _struct.pack('<d', v))[0], k), 'F')


def fpy(a):
    if a.op != 'fconst' or a.args[0].startswith('0x'): return None
    return _struct.unpack('<d', _struct.pack('<Q', int(a.args[0], 16)))[0]


def _small(p, k):
    lo, hi = p.iv()
    b = 1 << _EX[k]
    return lo is not None and hi is not None and lo >= -b and hi <= b


def dy(a, k):
    """(p, e) with a == p / 2^e exactly, or None.  The zero of such a value is +0."""
    if a.op == 'fconst':
        v = fpy(a)
        if v is None or v != v or _math.isinf(v) or (v == 0 and _math.copysign(1, v) < 0): return None
        n, d = v.as_integer_ratio()
        if abs(n) > (1 << _EX[k]) or d > (1 << 40): return None
        return const(n), d.bit_length() - 1
    if a.op != 'fapp': return None
    op = a.args[0]
    if op == 'itofp_' + k: return (a.args[1], 0) if _small(a.args[1], k) else None
    if op == 'dy_' + k: return a.args[1], a.args[2]
    if op == 'fpext_double' and k == 'double': return dy(a.args[1], a.args[2]) if a.args[2] in _EX else None
    return None


def mkdy(p, e, k):
    while e > 0:
        h = p.divc(2)
        if h is None: break
        p, e = h, e - 1
    if p.is_const(): return fval(p.cval() / (1 << e), k)
    if e == 0: return atom('fapp', ('itofp_' + k, p), 'F')
    return atom('fapp', ('dy_' + k, p, e), 'F')


def _al(x, y):
    e = max(x[1], y[1])
    return x[0] * (1 << (e - x[1])), y[0] * (1 << (e - y[1])), e


def fmk(op, *args, sort='F', lo=None, hi=None):
    """normalising constructor of floating-point applications"""
    if isinstance(op, str):
        m = op.rsplit('_', 1)
        if len(m) == 2 and m[1] in _EX and m[0] in ('fadd', 'fsub', 'fmul', 'fdiv') and len(args) == 2:
            k = m[1]
            a, b = args
            u, v = fpy(a), fpy(b)
            if u is not None and v is not None and k == 'double':
                try:
                    r = {'fadd': lambda: u + v, 'fsub': lambda: u - v, 'fmul': lambda: u * v, 'fdiv': lambda: u / v}[m[0]]()
                    if not (_math.isnan(r) or _math.isinf(r)): return fval(r, k)
                except (ZeroDivisionError, OverflowError): pass
            x, y = dy(a, k), dy(b, k)
            if x and y:
                r = None
                if m[0] in ('fadd', 'fsub'):
                    p, q, e = _al(x, y)
                    r = (p + q if m[0] == 'fadd' else p - q), e
                elif m[0] == 'fmul':
                    for (c, z) in ((x, y), (y, x)):
                        if c[0].is_const() and c[0].cval() > 0: r = z[0] * c[0].cval(), z[1] + c[1]
                    # a square, or a product of values that are not negative (no -0)
                    if r is None and (x == y or all((z[0].iv()[0] or -1 if z[0].iv()[0] != 0 else 0) >= 0 for z in (x, y))): r = x[0] * y[0], x[1] + y[1]
                elif y[0].is_const() and y[0].cval() > 0:
                    d = y[0].cval()
                    if d & (d - 1) == 0 and x[1] + d.bit_length() < 60:
                        r = x[0] * (1 << y[1]), x[1] + d.bit_length() - 1
                elif not y[0].is_const() and (y[0].iv()[0] or 0) > 0:
                    q, rem = polydivmod(x[0], y[0])                        # an exact quotient is representable
                    if not rem.d: r = q * (1 << y[1]), x[1]
                if r is not None and r[1] < 60 and _small(r[0], k): return mkdy(r[0], r[1], k)
            if m[0] in ('fadd', 'fmul') and a.id > b.id: args = (b, a)
            if m[0] == 'fmul':
                if v == 1.0: return a
                if u == 1.0: return b
        elif op.startswith('itofp_') and op[6:] in _EX and args[0].is_const() and abs(args[0].cval()) <= (1 << _EX[op[6:]]):
            return fval(float(args[0].cval()), op[6:])
        elif op == 'f2i' and args[0].op == 'fconst' and args[0].args[1] == 'double' and not args[0].args[0].startswith('0x'):
            return const(int(args[0].args[0], 16))
        elif op.startswith('dy_'):
            return mkdy(args[0], args[1], op[3:])
        else:
            f = k = None
            if op.startswith('llvm.') and op.count('.') == 2 and op.split('.')[2] in _SFX: f, k = op.split('.')[1], _SFX[op.split('.')[2]]
            elif op[:2] == 'm_':
                f, k = op[2:], 'double'
                if f not in ('floor', 'ceil', 'trunc', 'round', 'rint', 'fabs') and f[-1:] == 'f': f, k = f[:-1], 'float'
            if f in ('cos', 'exp', 'exp2', 'cosh') and k and len(args) == 1 and args[0].op == 'fconst' and fpy(args[0]) == 0: return fval(1.0, k)
            if f in ('floor', 'ceil', 'trunc', 'round', 'fabs', 'rint', 'nearbyint', 'roundeven') and len(args) == 1:
                if f == 'fabs' and args[0].op == 'fapp':      # |-x| and ||x|| are |x|, bit for bit
                    if args[0].args[0] == 'fneg': return fmk(op, args[0].args[1])
                    if args[0].args[0] == op: return args[0]
                x = dy(args[0], k)
                if x:
                    p, e = x
                    l, h = p.iv()
                    pos = l is not None and l >= 0
                    if f == 'fabs':
                        if pos: return args[0]
                    elif e == 0: return args[0]
                    elif f == 'floor' and (pos or h is not None): return mkdy(pdivc(p, 1 << e), 0, k)
                    elif pos and f == 'trunc': return mkdy(pdivc(p, 1 << e), 0, k)
                    elif pos and f == 'ceil': return mkdy(pdivc(p + (1 << e) - 1, 1 << e), 0, k)
                    elif pos and f == 'round': return mkdy(pdivc(p + (1 << (e - 1)), 1 << e), 0, k)
                if f in _FN: op = 'm_' + f if k == 'double' else op
            mm = _re.match(r'(fpto[su]i)(\d+)$', op)
            if mm:
                n = int(mm.group(2))
                l0, h0 = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if mm.group(1) == 'fptosi' else (0, (1 << n) - 1)
                for k in ('double', 'float'):
                    x = dy(args[0], k)
                    if x and (args[0].op != 'fconst' or args[0].args[1] == k):
                        p, e = x
                        l, h = p.iv()
                        q = None
                        if e == 0: q = p
                        elif l is not None and l >= 0: q = pdivc(p, 1 << e)
                        elif h is not None and h <= 0: q = -pdivc(-p, 1 << e)
                        if q is not None:
                            a_, b_ = q.iv()
                            if a_ is not None and b_ is not None and a_ >= l0 and b_ <= h0: return q
                        break
            if op.startswith('fcmp_') and len(args) == 2:
                for k in ('double', 'float'):
                    x, y = dy(args[0], k), dy(args[1], k)
                    if x and y:
                        p, q, e = _al(x, y)
                        pr = op[5:]
                        d = p - q
                        if pr == 'oeq': return eq(d)
                        if pr == 'one': return neg(eq(d))
                        if pr == 'olt': return ge(-d - 1)
                        if pr == 'ole': return ge(-d)
                        if pr == 'ord': return T
                        break
    r = atom('fapp', (op,) + tuple(args), sort, lo, hi)
    return r


import re as _re
_FN = ('floor', 'ceil', 'trunc', 'round')


def _rb_fapp(a, na):
    r = fmk(*na, sort=a.sort, lo=a.lo, hi=a.hi)
    if isinstance(r, Atom) and r.sort == 'I': return pv(r)
    return r


_rebuild['fapp'] = _rb_fapp


def psd(p):
    """is the quadratic polynomial p a sum of squares (of real-linear forms, the constant included)?"""
    if p.deg() != 2 or len(p.d) > 40: return False
    from fractions import Fraction
    M = {}
    vs = set()
    for m, c in p.d.items():
        if len(m) > 2: return False
        m = (m + (-1, -1))[:2] if len(m) < 2 else m
        vs |= set(m)
        i, j = m
        if i == j: M[i, i] = M.get((i, i), 0) + Fraction(c)
        else:
            for q in ((i, j), (j, i)): M[q] = M.get(q, 0) + Fraction(c, 2)
    vs = sorted(vs)
    while vs:
        i = next((v for v in vs if M.get((v, v), 0) > 0), None)
        if i is None: return all(M.get((a, b), 0) == 0 for a in vs for b in vs)
        d = M[i, i]
        vs = [v for v in vs if v != i]
        for a in vs:
            for b in vs:
                M[a, b] = M.get((a, b), 0) - M.get((a, i), 0) * M.get((i, b), 0) / d
        if any(M.get((v, v), 0) < 0 for v in vs): return False
    return True


def collapse(p):
    """d*(x div d) + (x mod d)  ->  x   (addresses computed from a divided linear index)"""
    for _ in range(6):
        hit = None
        for m, c in p.d.items():
            for i in m:
                a = A(i)
                if a.op in ('mod', 'modc') and m.count(i) == 1:
                    rest = list(m); rest.remove(i)
                    x, d = a.args
                    q = (pdiv(x, d) * d) if a.op == 'mod' else pdivc(x, d) * d
                    r = p - Poly({tuple(rest): c}) * (pv(a) + q - x)
                    if len(r.d) < len(p.d): hit = r; break
                    if a.op == 'modc':
                        # (x mod d) + d*((x div d) mod e)  ->  x mod (d*e)
                        Q = pdivc(x, d)
                        for m2, c2 in p.d.items():
                            if c2 != c * d or len(m2) != len(m): continue
                            for i2 in m2:
                                b = A(i2)
                                r2 = list(m2); r2.remove(i2)
                                if b.op == 'modc' and b.args[0] == Q and r2 == rest:
                                    hit = p - Poly({m: c}) - Poly({m2: c2}) + Poly({tuple(rest): c}) * pmod(x, d * b.args[1])
                                    break
                            if hit is not None: break
                    if hit is not None: break
            if hit is not None: break
        if hit is None: return p
        p = hit
    return p
