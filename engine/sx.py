"""Verification-condition generator: symbolic execution of LLVM IR with loop summarisation."""
import math, os, re, struct, sys, time
from math import gcd
from terms import *
from mem import *
from solver import Solver, PC, ROOT, STATS
from ir import I1, PTR

sys.setrecursionlimit(20000)
I64 = ('i', 64)


class LoopDep(Unsupported):
    def __init__(self, r, size, ty, msg):
        Unsupported.__init__(self, msg)
        self.dep = (r, size, ty)


class NeedSummary(Exception):
    pass


class ProbeDone(Exception):
    pass


class Abort(Exception):
    """analysis budget exhausted"""


def norm(p, n):
    """coefficients into the symmetric range mod 2^n"""
    M = 1 << n
    h = M >> 1
    for c in p.d.values():
        if not -h <= c < h: break
    else:
        return p
    d = {}
    for m, c in p.d.items():
        c &= M - 1
        if c >= h: c -= M
        if c: d[m] = c
    return Poly(d)


def width(ty):
    return ty[1] if ty[0] == 'i' else 64


class EnoughFailures(Exception):
    pass


class LoopCtx:
    def __init__(self):
        self.entry = {}
        self.k = None
        self.N = None
        self.written = {}      # region -> list of generic nodes (last round)
        self.thru = set()
        self.memphi = {}
        self.ncreg = 0
        self.fn = None


class Engine:
    def __init__(self, mod, budget=600):
        self.mod = mod
        self.S = Solver()
        self.regions = {}
        self.nreg = 1
        self.greg = {}
        self.oblig = []          # dicts
        self.inputs = {}         # name -> atom / ('arr', base, es, ty)
        self.depth = 0
        self.fnseen = {}
        self.models = {}
        self.deadline = time.time() + budget
        self.covers = {}
        self.steps = 0
        self.quiet = 0
        self.races = False       # decide interference only: accesses are assumed in bounds, exceptions inside iterations are not examined
        self.par = None          # (first private region, iteration symbol) while one iteration of a parallel loop is run
        self.approx = False
        self.ranges = {}
        self.nfail = 0
        self.trusted = set()
        self.loops_summarised = set()
        self.peeled = {}
        self.concrete_cap = 70
        self.typeids = {}
        self.layout = None
        self.debug = False
        self.parloops = set()

    # ------------------------------------------------------------ regions
    def new_region(self, st, name, size, kind, content=None):
        r = self.nreg
        self.nreg += 1
        self.regions[r] = Region(r, name, size, kind)
        st.mem[r] = content if content is not None else base('undef', r=r)
        return r

    def global_ptr(self, st, name):
        name = self.mod.aliases.get(name, name)
        if name in self.mod.funcs or name in self.mod.decls: return FPtr(name)
        r = self.greg.get(name)
        if r is None:
            r = self.nreg
            self.nreg += 1
            txt = self.mod.gtext.get(name, '')
            size, node = self._ginit(name, txt, r)
            self.regions[r] = Region(r, '@' + name, size, 'global')
            self.greg[name] = (r, node)
            r = self.greg[name]
        if r[0] not in st.mem: st.mem[r[0]] = r[1]
        return Ptr(r[0], ZERO)

    def _ginit(self, name, txt, r):
        from ir import P, tokenize
        m = re.search(r'\b(constant|global)\s+(.*)$', txt)
        if not m: return None, base('opaque', r=r)
        ext = re.search(r'\b(external|extern_weak)\b', txt[:m.start()])
        body = re.sub(r', (align|section|comdat|!)\b.*$', '', m.group(2))
        body = re.sub(r', comdat.*$', '', body)
        try:
            p = P(tokenize(body), self.mod)
            ty = p.type()
            size = const(self.mod.sizeof(ty))
            if ext or p.peek() is None: return size, base('opaque', r=r)
            v = p.val(ty)
            bs = base('zero', r=r)
            out = []
            self._gflat(ty, v, 0, out)
            n = bs
            for off, sz, val, t in out:
                n = Node('W', n, off=const(off), size=sz, val=val, ty=t)
            return size, n
        except SyntaxError:
            return None, base('opaque', r=r)

    def _gflat(self, ty, v, off, out):
        t = self.mod.res(ty)
        if v[0] == 'zero' or v[0] == 'undef': return
        if v[0] == 'agg':
            if t[0] == 'struct': offs = self.mod.layout(t)[2]
            else:
                s = self.mod.sizeof(t[2]); offs = [i * s for i in range(t[1])]
            for (et, ev), o in zip(v[1], offs): self._gflat(et, ev, off + o, out)
            return
        if v[0] == 'cstr':
            b = []
            s = v[1]
            i = 0
            while i < len(s):
                if s[i] == '\\': b.append(int(s[i + 1:i + 3], 16)); i += 3
                else: b.append(ord(s[i])); i += 1
            for j, x in enumerate(b): out.append((off + j, 1, const(x), ('i', 8)))
            return
        if v[0] in ('g', 'cgep', 'unk'):
            out.append((off, 8, ('lazy', ty, v), ty)); return
        if v[0] == 'c':
            out.append((off, self.mod.sizeof(t), norm(const(v[1]), t[1]) if t[1] > 1 else (T if v[1] else F), t)); return
        if v[0] == 'fc':
            out.append((off, self.mod.sizeof(t), self.fconst(v[1], t), t)); return
        if v[0] == 'null':
            out.append((off, 8, NULL, t)); return

    def cstring(self, st, p):
        """concrete C string at pointer"""
        n = st.mem[p.r]
        o = p.off.cval()
        d = {}
        while n is not None:
            if n.k == 'W' and n.off.is_const() and isinstance(n.val, Poly) and n.val.is_const(): d.setdefault(n.off.cval(), n.val.cval() & 255)
            n = n.prev
        s = ''
        while d.get(o): s += chr(d[o]); o += 1
        return s

    # ------------------------------------------------------------ int canonical forms
    def uns(self, pc, p, n):
        p = norm(p, n)
        M = 1 << n
        if p.is_const(): return const(p.cval() % M)
        lo, hi = p.iv()
        if lo is not None and lo >= 0 and hi is not None and hi < M: return p
        lo_ok = (lo is not None and lo >= 0) or psd(p) or self.S.prove(pc, ge(p))
        hi_ok = (hi is not None and hi < M) or (lo_ok and self.S.prove(pc, ge(M - 1 - p)))
        if lo_ok and hi_ok: return p
        if not lo_ok and self.S.prove(pc, ge(-p - 1)) and self.S.prove(pc, ge(p + M)): return p + M
        if lo_ok and self.S.prove(pc, ge(p - M)) and self.S.prove(pc, ge(2 * M - 1 - p)): return p - M
        return pmod(p, M)

    def sgn(self, pc, p, n):
        p = norm(p, n)
        H = 1 << (n - 1)
        if p.is_const(): return p
        lo, hi = p.iv()
        lo_ok = (lo is not None and lo >= -H) or self.S.prove(pc, ge(p + H))
        hi_ok = lo_ok and ((hi is not None and hi < H) or self.S.prove(pc, ge(H - 1 - p)))
        if lo_ok and hi_ok: return p
        if lo_ok and self.S.prove(pc, ge(p - H)) and self.S.prove(pc, ge(3 * H - 1 - p)): return p - 2 * H
        if not lo_ok and self.S.prove(pc, ge(-p - H - 1)) and self.S.prove(pc, ge(p + 3 * H)): return p + 2 * H
        return pmod(p + H, 2 * H) - H

    def icmp(self, pc, pred, ty, a, b):
        if ty[0] == 'ptr':
            return self.pcmp(pc, pred, a, b)
        n = ty[1]
        if n == 1:
            if not isinstance(a, tuple): a = self.tobool(a)
            if not isinstance(b, tuple): b = self.tobool(b)
            e = disj(conj(a, b), conj(neg(a), neg(b)))
            if pred == 'eq': return e
            if pred == 'ne': return neg(e)
            if pred == 'ult' or pred == 'sgt': return conj(neg(a), b)
            if pred == 'ugt' or pred == 'slt': return conj(a, neg(b))
            raise Unsupported('icmp i1 ' + pred)
        if pred in ('eq', 'ne'):
            d = norm(a - b, n)
            if d.is_const(): r = T if d.cval() == 0 else F
            else:
                lo, hi = d.iv()
                M = 1 << n
                if not (lo is not None and hi is not None and lo > -M and hi < M):
                    if not (self.S.prove(pc, ge(d + M - 1)) and self.S.prove(pc, ge(M - 1 - d))):
                        d = self.uns(pc, a, n) - self.uns(pc, b, n)
                r = eq(d)
            return r if pred == 'eq' else neg(r)
        c = self.uns if pred[0] == 'u' else self.sgn
        x, y = c(pc, a, n), c(pc, b, n)
        k = pred[1:]
        if k == 'lt': return lt(x, y)
        if k == 'le': return le(x, y)
        if k == 'gt': return lt(y, x)
        return le(y, x)

    def pcmp(self, pc, pred, a, b):
        if isinstance(a, FPtr) or isinstance(b, FPtr):
            e = T if (isinstance(a, FPtr) and isinstance(b, FPtr) and a.n == b.n) else F
            if pred == 'eq': return e
            if pred == 'ne': return neg(e)
            raise Unsupported('fptr cmp')
        if a.r == b.r:
            x, y = a.off, b.off
            if pred == 'eq': return eq(x - y)
            if pred == 'ne': return neg(eq(x - y))
            k = pred[1:]
            return {'lt': lt(x, y), 'le': le(x, y), 'gt': lt(y, x), 'ge': le(y, x)}[k]
        if pred == 'eq': return F
        if pred == 'ne': return T
        if a.r == 0: return {'lt': T, 'le': T, 'gt': F, 'ge': F}[pred[1:]]
        if b.r == 0: return {'lt': F, 'le': F, 'gt': T, 'ge': T}[pred[1:]]
        x = pv(self.regions[a.r].addr) + a.off
        y = pv(self.regions[b.r].addr) + b.off
        k = pred[1:]
        return {'lt': lt(x, y), 'le': le(x, y), 'gt': lt(y, x), 'ge': le(y, x)}[k]

    def tobool(self, v):
        if isinstance(v, tuple): return v
        if isinstance(v, Undef): return ba(fresh('undefb', 'B'))
        if isinstance(v, Poly): return neg(eq(pmod(v, 2)))
        raise Unsupported(f'bool of {v}')

    def toint(self, v, n=64):
        if isinstance(v, Poly): return v
        if isinstance(v, Undef): return pv(fresh('undef', 'I', 0, (1 << n) - 1))
        if isinstance(v, tuple): return ite(v, ONE, ZERO)
        if isinstance(v, Ptr): return self.p2i(v)
        raise Unsupported(f'int of {v!r}')

    def p2i(self, p):
        if isinstance(p, FPtr): return pv(atom('faddr', (p.n,), 'I', 1 << 16, 1 << 47))
        if isinstance(p, PIte): return ite(p.c, self.p2i(p.a), self.p2i(p.b))
        if p.r == 0: return p.off
        return pv(self.regions[p.r].addr) + p.off

    def i2p(self, p):
        if isinstance(p, Ptr): return p
        for m, c in p.d.items():
            if len(m) == 1 and c == 1:
                a = A(m[0])
                if a.op == 'addr': return Ptr(a.args[0], p - pv(a))
                if a.op == 'faddr' and len(p.d) == 1: return FPtr(a.args[0])
                if a.op == 'ite' and len(p.d) == 1:
                    return PIte(a.args[0], self.i2p(a.args[1]), self.i2p(a.args[2]))
        if p.is_const(): return Ptr(0, p)
        raise Unsupported(f'inttoptr {p}')

    # ------------------------------------------------------------ floats
    def fconst(self, tok, ty):
        k = ty[1]
        if tok in ('undef', 'poison', 'zeroinitializer'): return self.fval(0.0, k)
        if tok.startswith('0x'):
            if tok[2] in 'KLMHR': return atom('fconst', (tok, k), 'F')
            bits = int(tok, 16)
            v = struct.unpack('<d', struct.pack('<Q', bits))[0]
        else:
            v = float(tok)
        return self.fval(v, k)

    def fval(self, v, k):
        return atom('fconst', ('%016x' % struct.unpack('<Q', struct.pack('<d', v))[0], k), 'F')

    def fpy(self, a):
        if a.op != 'fconst' or a.args[0].startswith('0x'): return None
        return struct.unpack('<d', struct.pack('<Q', int(a.args[0], 16)))[0]

    def fapp(self, op, *args, sort='F', lo=None, hi=None):
        return fmk(op, *args, sort=sort, lo=lo, hi=hi)

    def tofl(self, v):
        if isinstance(v, Atom): return v
        if isinstance(v, Undef): return fresh('undeff', 'F')
        raise Unsupported(f'float of {v!r}')

    def fbin(self, op, a, b, k): return fmk(op + '_' + k, a, b)

    def fcmp(self, pred, a, b):
        if pred in ('true', 'false'): return T if pred == 'true' else F
        x, y = self.fpy(a), self.fpy(b)
        if x is not None and y is not None:
            r = {'oeq': x == y, 'une': x != y, 'olt': x < y, 'ogt': x > y, 'ole': x <= y, 'oge': x >= y, 'one': x != y, 'ueq': x == y,
                 'ult': x < y, 'ugt': x > y, 'ule': x <= y, 'uge': x >= y, 'ord': True, 'uno': False}[pred]
            return T if r else F
        if a is b and a.op == 'fapp' and str(a.args[0]).startswith(('itofp', 'uitofp')): return T if pred in ('oeq', 'ole', 'oge', 'ord', 'ueq', 'ule', 'uge') else F
        if pred[0] == 'u' and pred != 'uno':
            inv = {'une': 'oeq', 'ult': 'oge', 'ule': 'ogt', 'ugt': 'ole', 'uge': 'olt', 'ueq': 'one'}[pred]
            return neg(self.fcmp(inv, a, b))
        if pred == 'uno': return neg(self.fcmp('ord', a, b))
        if pred in ('ogt', 'oge'): pred = {'ogt': 'olt', 'oge': 'ole'}[pred]; a, b = b, a
        if pred in ('oeq', 'one', 'ord') and a.id > b.id: a, b = b, a
        r = fmk('fcmp_' + pred, a, b, sort='B')
        return ba(r) if isinstance(r, Atom) else r

    # ------------------------------------------------------------ memory read
    def coerce(self, pc, v, ft, tt, size):
        """reinterpret a stored value of type ft as type tt (same size)"""
        if isinstance(v, tuple) and v and v[0] == 'lazy':
            v = self.operand(self._lazy_st, {}, v[1], v[2])
        if isinstance(v, (Junk,)): raise Unsupported('read of ' + v.why)
        if isinstance(v, Undef): return Undef(tt)
        if ft == tt: return v
        if tt[0] == 'i' and ft[0] == 'i':
            if tt[1] == 1: return self.tobool(v)
            if ft[1] == 1: return self.toint(v)
            return v
        if tt[0] == 'i' and ft[0] == 'f':
            x = self.fpy(v)
            if x is not None and ft[1] == 'double':
                return norm(const(struct.unpack('<Q', struct.pack('<d', x))[0]), 64)
            if v.op == 'fapp' and v.args[0] == 'i2f': return v.args[1]
            return pv(self.fapp('f2i', v, sort='I', lo=0, hi=(1 << (8 * size)) - 1))
        if tt[0] == 'f' and ft[0] == 'i':
            if v.is_const() and tt[1] == 'double':
                return self.fval(struct.unpack('<d', struct.pack('<Q', v.cval() & (2**64 - 1)))[0], 'double')
            if v.is_const() and tt[1] == 'float':
                return self.fval(struct.unpack('<f', struct.pack('<I', v.cval() & (2**32 - 1)))[0], 'float')
            if len(v.d) == 1:
                (m, c), = v.d.items()
                if c == 1 and len(m) == 1 and A(m[0]).op == 'fapp' and A(m[0]).args[0] == 'f2i': return A(m[0]).args[1]
            return self.fapp('i2f', v)
        if tt[0] == 'ptr' and ft[0] == 'i': return self.i2p(v)
        if tt[0] == 'i' and ft[0] == 'ptr': return self.p2i(v)
        if tt[0] == 'ptr' and ft[0] == 'ptr': return v
        if tt[0] == 'f' and ft[0] == 'f': return self.coerce(pc, self.coerce(pc, v, ft, ('i', 8 * size), size), ('i', 8 * size), tt, size)
        if tt[0] == 'f' and ft[0] == 'ptr': return self.coerce(pc, self.p2i(v), ('i', 64), tt, size)
        raise Unsupported(f'coerce {ft}->{tt}')

    def extract(self, pc, v, ft, wsize, d, size, tt):
        """bytes [d,d+size) of value v of wsize bytes"""
        if d == 0 and size == wsize: return self.coerce(pc, v, ft, tt, size)
        if isinstance(v, Undef): return Undef(tt)
        iv = self.coerce(pc, v, ft, ('i', 8 * wsize), wsize)
        if isinstance(iv, tuple): iv = self.toint(iv)
        if d: iv = pdivc(self.uns(pc, iv, 8 * wsize), 1 << (8 * d))
        return self.coerce(pc, norm(iv, 8 * size), ('i', 8 * size), tt, size)

    def zero_of(self, tt):
        if tt[0] == 'i': return F if tt[1] == 1 else ZERO
        if tt[0] == 'ptr': return NULL
        if tt[0] == 'f': return self.fval(0.0, tt[1])
        raise Unsupported('zero')

    def deltas(self, delta, size, wsize):
        """possible constant values of delta=off-woff for which [off,off+size) meets [woff,woff+wsize)"""
        g = 0
        for m, c in delta.d.items():
            if m: g = gcd(g, c)
        c0 = delta.cval()
        if g == 0:
            return [c0] if -size < c0 < wsize else []
        return [d for d in range(-size + 1, wsize) if (d - c0) % g == 0]

    def combine(self, pc, node, off, size, ty, cut):
        """split the load at byte cut"""
        out = []
        for pc1, lo in self.read(pc, node, off, cut, ('i', 8 * cut)):
            for pc2, hi in self.read(pc1, node, off + cut, size - cut, ('i', 8 * (size - cut))):
                if isinstance(lo, Undef) or isinstance(hi, Undef):
                    out.append((pc2, Undef(ty))); continue
                v = self.uns(pc2, self.toint(lo), 8 * cut) + self.toint(hi) * (1 << (8 * cut))
                out.append((pc2, self.coerce(pc2, norm(v, 8 * size), ('i', 8 * size), ty, size)))
        return out

    def at_delta(self, pc, node, off, size, ty, v, vt, wsize, d):
        """load at constant distance d from a write of wsize bytes"""
        if 0 <= d and d + size <= wsize: return [(pc, self.extract(pc, v, vt, wsize, d, size, ty))]
        # partial overlap
        if d < 0: return self.combine(pc, node, off, size, ty, -d)
        return self.combine(pc, node, off, size, ty, wsize - d)

    def read(self, pc, node, off, size, ty):
        """-> [(pc', value)]"""
        S = self.S
        n = node
        while True:
            k = n.k
            if k == 'B': return self.read_base(pc, n, off, size, ty)
            if k == 'W':
                delta = off - n.off
                if delta.is_const():
                    d = delta.cval()
                    if -size < d < n.size: return self.at_delta(pc, node if n is node else n, off, size, ty, n.val, n.ty, n.size, d)
                    n = n.prev; continue
                ds = self.deltas(delta, size, n.size)
                live = []
                for d in ds:
                    f = eq(delta - d)
                    if f == F or S.prove(pc, neg(f)): continue
                    live.append((d, f))
                if not live: n = n.prev; continue
                if len(live) == 1 and S.prove(pc, live[0][1]):
                    return self.at_delta(pc, n, off, size, ty, n.val, n.ty, n.size, live[0][0])
                out = []
                rest = pc
                for d, f in live:
                    out += self.at_delta(pc.add(f), n, n.off + d, size, ty, n.val, n.ty, n.size, d)
                    rest = rest.add(neg(f))
                if S.feasible(rest): out += self.read(rest, n.prev, off, size, ty)
                return out
            if k in ('Fl', 'Cp'):
                a, b = off - n.off, n.off + n.len - off - size
                fin = conj(ge(a), ge(b))
                fout = disj(ge(-a - size), ge(-(n.off + n.len - off)))
                if fout == T or S.prove(pc, fout): n = n.prev; continue
                pin = S.prove(pc, fin)
                out = []
                pcin = pc if pin else pc.add(fin)
                if pin or S.feasible(pcin):
                    if k == 'Fl':
                        bval = n.val
                        if bval.is_const() and bval.cval() == 0: out.append((pcin, self.zero_of(ty)))
                        else:
                            v = bval * sum(1 << (8 * i) for i in range(size))
                            out.append((pcin, self.coerce(pcin, norm(v, 8 * size), ('i', 8 * size), ty, size)))
                    else:
                        out += self.read(pcin, n.src, n.soff + a, size, ty)
                if pin: return out
                pco = pc.add(fout)
                pcb = pc.add(neg(fin)).add(neg(fout))
                if S.feasible(pcb, True): raise Unsupported('load straddles a block copy')
                if S.feasible(pco): out += self.read(pco, n.prev, off, size, ty)
                return out
            if k in ('C', 'CC'):
                r = self.read_compr(pc, n, off, size, ty)
                if r is None: n = n.prev; continue
                return r
            if k == 'G':
                r = self.read_group(pc, n, off, size, ty)
                if r is None: n = n.prev; continue
                return r
            if k == 'LP':
                r = self.read_lp(pc, n, off, size, ty)
                if r is None: n = n.prev; continue
                return r
            raise Unsupported('node ' + k)

    def read_base(self, pc, n, off, size, ty):
        kind = n.val
        if kind == 'undef': return [(pc, Undef(ty))]
        if kind == 'zero': return [(pc, self.zero_of(ty))]
        if kind == 'sym':
            es = n.es
            rem = off.cval() % es
            q = (off - rem).divc(es)
            if q is None:
                # offset not structurally aligned: case split on residue is not supported
                raise Unsupported(f'unaligned symbolic read {off} / {es}')
            if rem + size <= es:
                bits = 8 * es
                if n.ty[0] == 'f': v = atom('sel', (n.name, q), 'F')
                else: v = pv(atom('sel', (n.name, q), 'I', 0, n.name_hi if hasattr(n, 'name_hi') else (1 << bits) - 1))
                return [(pc, self.extract(pc, v, n.ty, es, rem, size, ty))]
            return self.combine(pc, n, off, size, ty, es - rem)
        if kind == 'opaque':
            if ty[0] == 'ptr':
                raise Unsupported('pointer read from opaque memory ' + str(n.name))
            if ty[0] == 'f': return [(pc, atom('osel', (n.r, size, off), 'F'))]
            v = pv(atom('osel', (n.r, size, off), 'I', 0, (1 << (8 * size)) - 1))
            return [(pc, self.tobool(v) if ty == I1 else v)]
        raise Unsupported('base ' + kind)

    # ---- comprehension layers
    def solve(self, pc, vars, off, target, guard=T, inexact=False):
        """yield candidate assignments {atom id: Poly} with off(v)==target"""
        ids = [a.id for a, N in vars]
        coef = {i: ZERO for i in ids}
        b = ZERO
        for m, c in off.d.items():
            hit = [i for i in m if i in coef]
            if not hit: b = b + Poly({m: c})
            elif len(hit) == 1:
                mm = list(m); mm.remove(hit[0])
                coef[hit[0]] = coef[hit[0]] + Poly({tuple(mm): c})
            else:
                raise Unsupported(f'non-affine write set {off}')
        for i in ids:        # loop variables hidden inside opaque terms
            s = set()
            for m in off.d:
                for j in m:
                    if j not in coef: walk_atoms(A(j), s)
            if i in s: raise Unsupported(f'write index not affine in loop variable: {off}')
        free = [i for i in ids if not coef[i].d]
        pin = {}
        for i in free:
            v = self.pinned(guard, i, ids)
            if v is None: raise Unsupported('write set not injective')
            pin[i] = v
        if pin:
            ids = [i for i in ids if i not in pin]
            if not ids:
                yield dict(pin)
                return
            for c in self.solve(pc, [(a, N) for a, N in vars if a.id not in pin], off, target, T, inexact):
                c = dict(c); c.update(pin); yield c
            return
        order = sorted(ids, key=lambda i: (coef[i].deg(), max(abs(c) for c in coef[i].d.values())), reverse=True)

        def rec(j, R):
            i = order[j]
            a = coef[i]
            if j == len(order) - 1:
                if a.is_const():
                    q = R.divc(a.cval())
                else:
                    q, r = polydivmod(R, a)
                    if r.d: q = None
                if q is not None: yield {i: q}
                elif inexact:
                    # a solution only where the remainder vanishes (the caller adds that condition)
                    if a.is_const(): yield {i: pdivc(R, a.cval())} if a.cval() > 0 else {i: pdivc(-R, -a.cval())}
                    else:
                        q = polydivmod(R, a)[0]
                        yield {i: q}
                        if j == 0: yield {i: q + 1}; yield {i: q - 1}
                return
            qs = []
            if a.is_const():
                c = a.cval()
                q = Poly({m: v // c for m, v in R.d.items() if v // c})
                qs.append(q)
                if c > 0: qs.append(pdivc(R, c))
            else:
                q, r = polydivmod(R, a)
                qs.append(q)
                if R.d: qs.append(pdiv(R, a))
            for q in dict.fromkeys(qs):
                for t in (0, 1, -1, 2, -2):
                    for s in rec(j + 1, R - a * (q + t)):
                        s = dict(s); s[i] = q + t
                        yield s
        yield from rec(0, target - b)

    def pinned(self, guard, i, ids):
        fs = guard[1] if guard[0] == 'and' else (guard,)
        for g in fs:
            if g[0] != 'eq': continue
            c = g[1].d.get((i,))
            if c not in (1, -1): continue
            rest = g[1] - Poly({(i,): c})
            st = set(); walk_atoms(rest, st)
            if any(j in st for j in ids): continue
            return rest * (-c)
        return None

    def inrange(self, vars, cand):
        fs = []
        sub = Subst(cand)
        for a, N in vars:
            v = cand[a.id]
            fs.append(ge(v)); fs.append(ge(sub(N) - v - 1))
        return conj(*fs)

    def pick(self, pc, vars, off, target, guard=T):
        try: r = self.pick_exact(pc, vars, off, target, guard)
        except Unsupported:
            sp = self.split_linear(vars, off, guard)
            return self.pick_split(pc, vars, target, *sp) if sp else None
        if r is None: r = self.pick_exact(pc, vars, off, target, guard, True)
        return r

    def split_linear(self, vars, off, guard):
        """a linear loop variable v used through v / D and v % D: replace it by the row q and the column r, v = D*q + r"""
        at = set()
        for m in off.d:
            for j in m: walk_atoms(A(j), at)
        ids = {a.id for a, N in vars}
        nv, mp, back = [], {}, {}
        for a, N in vars:
            ds = {A(j).args[1] for j in at if A(j).op in ('div', 'mod') and A(j).args[0] == pv(a)}
            if not ds: nv.append((a, N)); continue
            if len(ds) > 1: return None
            D = ds.pop()
            t = set(); walk_atoms(D, t); walk_atoms(N, t)
            if t & ids: return None
            Nq, rem = polydivmod(N, D) if not D.is_const() else (N.divc(D.cval()), ZERO)
            if Nq is None or rem.d: return None
            q, r = fresh('q', 'I', 0, a.hi), fresh('r', 'I', 0, a.hi)
            nv += [(q, Nq), (r, D)]
            mp[a.id] = D * pv(q) + pv(r)
            mp[atom('div', (pv(a), D), 'I', 0, a.hi).id] = pv(q)
            mp[next(iter(pmods(pv(a), D).d))[0]] = pv(r)
        if not mp: return None
        sub = Subst(mp)
        return nv, sub(off), sub(guard), mp

    def pick_split(self, pc, vars, target, nv, off, guard, mp):
        try: p = self.pick_exact(pc, nv, off, target, guard)
        except Unsupported: return None
        if p is None: return None
        c, r = p
        sub = Subst(c)
        c = dict(c)
        for k, v in mp.items(): c[k] = sub(v)
        return c, r

    def skolem(self, vars, off, target):
        """some matching iteration (over-approximates the writer when it is not unique)"""
        self.approx = True
        c = {a.id: pv(fresh('w', 'I', 0, a.hi)) for a, N in vars}
        return c, conj(self.inrange(vars, c), eq(Subst(c)(off) - target))

    def pick_exact(self, pc, vars, off, target, guard=T, inexact=False):
        """the unique solution of off(v)==target (over v in range), with its range condition; proof of uniqueness included"""
        cands = []
        seen = set()
        for c in self.solve(pc, vars, off, target, guard, inexact):
            key = tuple(c[a.id] for a, _ in vars)
            if key in seen: continue
            seen.add(key); cands.append(c)
            if len(cands) > 30: break
        if not cands: return None
        best = None
        feas = []
        for c in cands:
            r = self.inrange(vars, c)
            if inexact: r = conj(r, eq(Subst(c)(off) - target))
            if r == F: continue
            if self.S.prove(pc, r):
                best = [(c, r)]; break
            if self.S.prove(pc, neg(r)): continue
            feas.append((c, r))
        lst = best or feas
        if not lst:
            lst = [(cands[0], F)]
        for c, r in lst:
            if self.unique(pc, vars, off, target, c, guard): return c, r
        return None

    def unique(self, pc, vars, off, target, cand, guard=T):
        S = self.S
        mp = {}
        fr = []
        for a, N in vars:
            u = fresh('u', 'I', 0, a.hi)
            mp[a.id] = pv(u)
            fr.append((a, u, N))
        sub = Subst(mp)
        q = pc
        for a, u, N in fr: q = q.add(ge(sub(N) - pv(u) - 1))
        q = q.add(eq(sub(off) - target))
        if guard != T: q = q.add(sub(guard))
        # majors first
        coefdeg = lambda a: max((len(m) for m in off.d if a.id in m), default=0)
        for a, u, N in sorted(fr, key=lambda x: -coefdeg(x[0])):
            d = pv(u) - cand[a.id]
            if S.prove(q, eq(d)): continue
            if not S.prove(q.add(ge(d - 1)), F, False): 
                if not S.prove(q.add(ge(d - 1)), F, True): return False
            if not S.prove(q.add(ge(-d - 1)), F, False):
                if not S.prove(q.add(ge(-d - 1)), F, True): return False
            q = q.add(eq(d))
        return True

    def read_compr(self, pc, n, off, size, ty):
        S = self.S
        if n.k == 'CC':
            return self.read_cc(pc, n, off, size, ty)
        delta0 = off - n.off
        ds = self.deltas(delta0, size, n.size)
        out = []
        rest = pc
        hit = False
        for d in ds:
            p = self.pick(pc, n.vars, n.off, off - d, n.guard)
            if p is None:
                # maybe the layer cannot touch this address at all
                if self.disjoint(pc, n, off, size): continue
                p = self.skolem(n.vars, n.off, off - d)
            c, r = p
            sub = Subst(c)
            cond = conj(r, sub(n.guard))
            if cond == F or S.prove(rest, neg(cond)): continue
            v = sub(n.val)
            if cond == T or S.prove(rest, cond):
                return out + self.at_delta(rest, n, off, size, ty, v, n.ty, n.size, d)
            q = rest.add(cond)
            if S.feasible(q):
                out += self.at_delta(q, n, off, size, ty, v, n.ty, n.size, d)
                hit = True
                rest = rest.add(neg(cond))
        if not hit: return None
        if S.feasible(rest): out += self.read(rest, n.prev, off, size, ty)
        return out

    def read_group(self, pc, n, off, size, ty):
        """writes of one loop whose iterations may overlap: the latest iteration wins"""
        S = self.S
        cs = []
        for m in n.es:
            for d in self.deltas(off - m.off, size, m.size):
                p = self.pick(pc, m.vars, m.off, off - d, m.guard)
                if p is None:
                    if self.disjoint(pc, m, off, size): continue
                    p = self.skolem(m.vars, m.off, off - d)
                c, r = p
                sub = Subst(c)
                cond = conj(r, sub(m.guard))
                if cond == F or S.prove(pc, neg(cond)): continue
                cs.append((cond, [sub(x) if isinstance(x, Poly) else x for x in m.key], sub(m.val), m, d))
        if not cs: return None

        def later(a, b):
            for x, y in zip(a, b):
                if isinstance(x, Poly):
                    t = later(a[1:], b[1:]) if x == y else disj(ge(x - y - 1), conj(eq(x - y), later(a[1:], b[1:])))
                    return t
                if x != y: return T if x > y else F
                a, b = a[1:], b[1:]
                return later(a, b)
            return T
        out = []
        none = pc
        for i, (cond, key, v, m, d) in enumerate(cs):
            q = pc.add(cond)
            for j, o in enumerate(cs):
                if j != i: q = q.add(disj(neg(o[0]), later(key, o[1])))
            none = none.add(neg(cond))
            if S.feasible(q): out += self.at_delta(q, n, off, size, ty, v, m.ty, m.size, d)
        if S.feasible(none): out += self.read(none, n.prev, off, size, ty)
        return out

    def disjoint(self, pc, n, off, size, extra=T):
        """prove that no instance of layer n overlaps [off,off+size)"""
        mp = {a.id: pv(fresh('u', 'I', 0, a.hi)) for a, N in n.vars}
        sub = Subst(mp)
        q = pc
        for a, N in n.vars: q = q.add(ge(sub(N) - mp[a.id] - 1))
        q = q.add(sub(n.guard)).add(extra)
        ln = const(n.size) if n.k == 'C' else sub(n.len)
        d = off - sub(n.off)
        q = q.add(ge(d + size - 1)).add(ge(ln - d - 1))
        return self.S.prove(q, F, False) or self.S.prove(q, F, True)

    def read_cc(self, pc, n, off, size, ty):
        S = self.S
        e = fresh('e', 'I', 0)
        vars = n.vars + ((e, n.len),)
        p = self.pick(pc, vars, n.off + pv(e), off, n.guard)
        if p is None:
            if self.disjoint(pc, n, off, size): return None
            p = self.skolem(vars, n.off + pv(e), off)
        c, r = p
        sub = Subst(c)
        cond = conj(r, sub(n.guard))
        if cond == F or S.prove(pc, neg(cond)): return None
        q = pc if S.prove(pc, cond) else pc.add(cond)
        if not S.prove(q, ge(sub(n.len) - c[e.id] - size)): raise Unsupported('straddle in block copy')
        if n.src is None: out = [(q, self.zero_of(ty))]
        else: out = self.read(q, n.src, sub(n.soff) + c[e.id], size, ty)
        if q is not pc:
            rest = pc.add(neg(cond))
            if S.feasible(rest): out = out + self.read(rest, n.prev, off, size, ty)
        return out

    def read_lp(self, pc, n, off, size, ty):
        ctx, r = n.ctx, n.r
        w = ctx.written.get(r)
        if not w:
            ctx.thru.add(r)
            return None
        ctx.thru.add(r)
        j = fresh('j', 'I', 0)
        kk = ctx.k
        sub = Subst({kk.id: pv(j)})
        q = pc.add(ge(pv(kk) - pv(j) - 1))
        for node in [x for n0 in w for x in (n0.es if n0.k == 'G' else (n0,))]:
            m = self.subst_node(node, sub)
            mm = m if m.k in ('C', 'CC') else Node('C', None, vars=(), guard=T, off=m.off, size=m.size, val=m.val, ty=m.ty) if m.k == 'W' else Node('CC', None, vars=(), guard=T, off=m.off, len=m.len, src=getattr(m, 'src', None), soff=getattr(m, 'soff', None))
            if not self.disjoint(q, mm, off, size):
                raise LoopDep(r, size, ty, f'loop-carried memory dependence in {ctx.fn} on {self.regions[r].name}: read {off} vs write {m.off}')
        return None

    def subst_node(self, n, sub):
        m = n.copy_on(n.prev)
        if n.k == 'G':
            m.es = [self.subst_node(x, sub) for x in n.es]
            return m
        if hasattr(n, 'key'): m.key = tuple(sub(x) if isinstance(x, Poly) else x for x in n.key)
        m.off = sub(n.off)
        if n.k in ('W', 'C', 'Fl'): m.val = sub(n.val)
        if n.k in ('C', 'CC'):
            m.guard = sub(n.guard)
            m.vars = tuple((a, sub(N)) for a, N in n.vars)
        if n.k in ('Cp', 'CC'):
            if n.soff is not None: m.soff = sub(n.soff)
            m.len = sub(n.len)
        if n.k == 'Fl': m.len = sub(n.len)
        return m

    # ------------------------------------------------------------ load/store
    def bounds(self, st, p, size, what):
        if p.r == 0:
            self.fail(st, 'memory-safety', f'null {what} in {self.cur()}')
            return False
        rg = self.regions[p.r]
        if p.r in st.freed:
            self.fail(st, 'memory-safety', f'{what} of freed memory in {self.cur()}')
        if self.par is not None and (p.r < self.par[0] or rg.kind == 'global'):
            # inside one iteration of a parallel loop: footprint of the iteration on memory that other iterations can see
            self.oblig.append({'kind': 'access', 'what': what, 'ok': True, 'pc': st.pc, 'goal': (p.r, p.off, size), 'fn': self.curfn, 'quiet': self.quiet})
        if rg.size is None: return True
        g = conj(ge(p.off), ge(rg.size - p.off - size))
        if g == T: return True
        if not self.races: self.obligation(st, g, 'memory-safety', f'{what} in bounds of {rg.name} in {self.cur()}')
        if g == F: return False
        st.assume(g)
        return True

    def load(self, st, p, ty):
        """-> [(st, val)]"""
        out = []
        for st, p in self.ptrs(st, p):
            t = self.mod.res(ty)
            size = self.ssize(t)
            if isinstance(p, FPtr): raise Unsupported('load from function')
            if not self.bounds(st, p, size, 'load'): continue
            out += self._load(st, p, t, size)
        return out

    def _load(self, st, p, t, size):
        if t[0] in ('struct', 'arr', 'vec'):
            if t[0] == 'struct': fs = list(zip(t[1], self.mod.layout(t)[2]))
            else:
                s = self.mod.sizeof(t[2]); fs = [(t[2], i * s) for i in range(t[1])]
            res = [(st, ())]
            for et, o in fs:
                nres = []
                for s1, acc in res:
                    for s2, v in self._load(s1, Ptr(p.r, p.off + o), self.mod.res(et), self.ssize(self.mod.res(et))): nres.append((s2, acc + (v,)))
                res = nres
            return [(s1, Agg(acc)) for s1, acc in res]
        self._lazy_st = st
        if p.r not in st.mem: raise Unsupported(f'load from unknown region {p}')
        rs = self.read(st.pc, st.mem[p.r], p.off, size, t)
        if len(rs) == 1:
            st.pc = rs[0][0]
            return [(st, rs[0][1])]
        out = []
        for pc, v in rs:
            if not self.S.feasible(pc): continue
            s2 = st.clone()
            s2.pc = pc
            out.append((s2, v))
        return out

    def store(self, st, p, ty, v):
        out = []
        for st, p in self.ptrs(st, p):
            t = self.mod.res(ty)
            size = self.ssize(t)
            if isinstance(p, FPtr): raise Unsupported('store to function')
            if not self.bounds(st, p, size, 'store'): continue
            if self.regions[p.r].kind == 'global' and self.quiet == 0 and False: pass
            self._store(st, p, t, size, v)
            out.append(st)
        return out

    def _store(self, st, p, t, size, v):
        if t[0] in ('struct', 'arr', 'vec'):
            if t[0] == 'struct': fs = list(zip(t[1], self.mod.layout(t)[2]))
            else:
                s = self.mod.sizeof(t[2]); fs = [(t[2], i * s) for i in range(t[1])]
            for i, (et, o) in enumerate(fs):
                e = v.e[i] if isinstance(v, Agg) else Undef(et)
                self._store(st, Ptr(p.r, p.off + o), self.mod.res(et), self.ssize(self.mod.res(et)), e)
            return
        n = st.mem[p.r]
        # drop directly overwritten scalars at the top of the chain
        if p.off.is_const():
            keep = []
            m = n
            cnt = 0
            while m.k == 'W' and m.off.is_const() and cnt < 40:
                cnt += 1
                if m.off == p.off and m.size == size:
                    n = m.prev
                    for q in reversed(keep): n = q.copy_on(n)
                    break
                keep.append(m); m = m.prev
        st.mem[p.r] = Node('W', n, off=p.off, size=size, val=v, ty=t)

    def ssize(self, t):
        return (t[1] + 7) // 8 if t[0] == 'i' else self.mod.sizeof(t)

    def ptrs(self, st, p):
        """case split of conditional pointers"""
        if isinstance(p, PIte):
            out = []
            for f, q in ((p.c, p.a), (neg(p.c), p.b)):
                s2 = st.clone().assume(f)
                if self.S.feasible(s2.pc): out += self.ptrs(s2, q)
            return out
        if isinstance(p, Undef): raise Unsupported('undef pointer')
        if isinstance(p, Junk): raise Unsupported('junk pointer ' + p.why)
        if isinstance(p, Poly): p = self.i2p(p)
        if isinstance(p, PIte): return self.ptrs(st, p)
        if isinstance(p, Ptr):
            for m in p.off.d:
                for i in m:
                    a = A(i)
                    if a.op != 'ite': continue
                    out = []
                    for f, v in ((a.args[0], a.args[1]), (neg(a.args[0]), a.args[2])):
                        if self.S.prove(st.pc, neg(f)): continue
                        s2 = st.clone().assume(f)
                        out += self.ptrs(s2, Ptr(p.r, Subst({i: v})(p.off)))
                    return out
        return [(st, p)]

    def memcpy(self, st, d, s, ln, align=8):
        out = []
        for st, d in self.ptrs(st, d):
            for st, s2 in self.ptrs(st, s):
                l = self.uns(st.pc, ln, 64)
                if l.is_const() and l.cval() == 0: out.append(st); continue
                for st2 in self.split(st, ge(l - 1)):
                    st2, nz = st2
                    if not nz: out.append(st2); continue
                    if not self.bounds(st2, d, l, 'copy-destination') or not self.bounds(st2, s2, l, 'copy-source'): continue
                    src = st2.mem[s2.r]
                    cs = self._covered(src, s2.off.cval(), l.cval()) if l.is_const() and l.cval() <= 64 and s2.off.is_const() else None
                    if cs is not None:
                        for n in reversed(cs): self._store(st2, Ptr(d.r, d.off + (n.off.cval() - s2.off.cval())), n.ty, n.size, n.val)
                    elif l.is_const() and l.cval() <= 64 and s2.off.is_const() and self._scalars(src):
                        self._copy_scalars(st2, d, s2, l.cval(), src)
                    elif l.is_const() and l.cval() <= 96 and self._loopsrc(src):
                        out += self._copy_chunks(st2, d, s2, l.cval(), align)
                        continue
                    else:
                        st2.mem[d.r] = Node('Cp', st2.mem[d.r], off=d.off, len=l, src=src, soff=s2.off)
                    out.append(st2)
        return out

    def _loopsrc(self, n):
        while n is not None:
            if n.k == 'LP': return True
            n = n.prev
        return False

    def _copy_chunks(self, st, d, s, ln, align):
        c = min(align, 8)
        while ln % c: c //= 2
        todo = [(st, ())]
        for o in range(0, ln, c):
            nxt = []
            for s1, acc in todo:
                for s2, v in self._load(s1, Ptr(s.r, s.off + o), ('i', 8 * c), c): nxt.append((s2, acc + (v,)))
            todo = nxt
        for s1, acc in todo:
            for i, v in enumerate(acc): self._store(s1, Ptr(d.r, d.off + i * c), ('i', 8 * c), c, v)
        return [s1 for s1, _ in todo]

    def _covered(self, n, o0, ln):
        """the scalar writes on top of n that exactly cover [o0, o0 + ln), newest first"""
        cov, order = set(), []
        while n.k == 'W' and n.off.is_const() and len(cov) < ln:
            o = n.off.cval()
            bs = [b for b in range(o, o + n.size) if o0 <= b < o0 + ln]
            if bs and not all(b in cov for b in bs):
                if len(bs) < n.size or any(b in cov for b in bs): return None
                order.append(n); cov.update(bs)
            n = n.prev
        return order if len(cov) == ln else None

    def _scalars(self, n):
        c = 0
        while n.k == 'W':
            if not n.off.is_const(): return False
            n = n.prev; c += 1
            if c > 60: return False
        return n.k == 'B' and n.val in ('undef', 'zero')

    def _copy_scalars(self, st, d, s, ln, src):
        o0 = s.off.cval()
        cells = {}
        order = []
        n = src
        ok = True
        cov = {}
        while n.k == 'W':
            o = n.off.cval()
            if o + n.size > o0 and o < o0 + ln:
                if any(b in cov for b in range(o, o + n.size)):
                    if not all(b in cov for b in range(o, o + n.size)): ok = False
                elif o < o0 or o + n.size > o0 + ln: ok = False
                else:
                    order.append(n)
                for b in range(o, o + n.size): cov[b] = 1
            n = n.prev
        if not ok or (n.val == 'zero' and len(cov) < ln):
            st.mem[d.r] = Node('Cp', st.mem[d.r], off=d.off, len=const(ln), src=src, soff=s.off)
            return
        for n in reversed(order):
            self._store(st, Ptr(d.r, d.off + (n.off.cval() - o0)), n.ty, n.size, n.val)

    def memset(self, st, d, b, ln):
        out = []
        for st, d in self.ptrs(st, d):
            l = self.uns(st.pc, ln, 64)
            for st2, nz in self.split(st, ge(l - 1)):
                if not nz: out.append(st2); continue
                if not self.bounds(st2, d, l, 'fill'): continue
                st2.mem[d.r] = Node('Fl', st2.mem[d.r], off=d.off, len=l, val=self.uns(st2.pc, b, 8))
                out.append(st2)
        return out

    def split(self, st, f):
        """[(state, truth)] feasible cases"""
        if f == T: return [(st, True)]
        if f == F: return [(st, False)]
        S = self.S
        if S.prove(st.pc, f): return [(st, True)]
        if S.prove(st.pc, neg(f)): return [(st, False)]
        a = st.clone().assume(f)
        b = st.clone().assume(neg(f))
        return [(a, True), (b, False)]

    # ------------------------------------------------------------ parallel loops
    def iteration(self, st, it, run):
        """run one arbitrary iteration `it` of a parallel loop and prove that it does not interfere with any other one"""
        import terms
        base_pc, mark, fmark = st.pc, len(self.oblig), terms._fresh[0]
        # fresh() numbers symbols: those created from here on belong to the iteration
        self.par = (max(self.regions) + 1, it)
        try: evs = run(st)
        finally: self.par = None
        for e in evs:
            if e[0] == 'exn' and not self.races: self.fail(e[1], 'contract', 'an exception leaves an iteration of a parallel loop')
        acc = [o for o in self.oblig[mark:] if o['kind'] == 'access']
        self.oblig[mark:] = [o for o in self.oblig[mark:] if o['kind'] != 'access']
        seen, uniq = set(), []
        for o in acc:
            fs = []
            n = o['pc']
            while n is not None and n is not base_pc: fs.append(n.f); n = n.parent
            if n is None: fs = [f for f in o['pc'].all()]
            w = o['what'] not in ('load', 'compare', 'copy-source', 'fwrite')
            key = (w, o['goal'], frozenset(fs))
            if key in seen: continue
            seen.add(key)
            uniq.append((w, o['goal'][0], o['goal'][1], o['goal'][2], fs[::-1], o['fn']))
        written = {u[1] for u in uniq if u[0]}
        uniq = [u for u in uniq if u[1] in written]
        ids = set()
        from loops import walk_any
        for u in uniq:
            walk_any(u[2], ids); walk_any(u[3], ids)
            for f in u[4]: walk_any(f, ids)
        ren = {}
        for i in ids:
            a = A(i)
            if a.op == 'sym' and '#' in str(a.args[0]) and int(str(a.args[0]).rsplit('#', 1)[1]) > fmark or i == it.id:
                b = fresh('o', a.sort, a.lo, a.hi)
                ren[i] = pv(b) if a.sort == 'I' else b
        if it.id not in ren: ren[it.id] = pv(fresh('o', 'I', it.lo, it.hi))
        sub = Subst(ren)
        other = ren[it.id]
        for x, a in enumerate(uniq):
            if not a[0]: continue
            pa = base_pc
            for f in a[4]: pa = pa.add(f)
            for y, b in enumerate(uniq):
                if b[1] != a[1] or (b[0] and y < x): continue
                pb = pa
                for f in b[4]:
                    g = sub(f)
                    pb = pb.add(ba(g) if not isinstance(g, tuple) else g)
                off, ln = sub(b[2]), sub(b[3]) if isinstance(b[3], Poly) else b[3]
                goal = disj(ge(off - a[2] - a[3]), ge(a[2] - off - ln))
                for order in (other - pv(it) - 1, pv(it) - other - 1):
                    if x == y and order is not None and order == pv(it) - other - 1: continue
                    s2 = st.clone()
                    s2.pc = pb.add(ge(order))
                    if not self.S.feasible(s2.pc): continue
                    self.obligation(s2, goal, 'contract', f'two iterations of a parallel loop write and {"write" if b[0] else "read"} different cells of {self.regions[a[1]].name} (in {a[5]} and {b[5]})')
        self.covers['iterations-independent'] = self.covers.get('iterations-independent', 0) + 1
        self.record(st, T, 'contract', 'iterations of a parallel loop do not interfere', True)

    # ------------------------------------------------------------ obligations
    def cur(self):
        return self.curfn

    def obligation(self, st, goal, kind, what):
        ok = self.S.prove(st.pc, goal, False) or self.S.prove(st.pc, goal, True) or self.deite(st.pc, goal) or self.resolved(st.pc, goal) or self.induct(st.pc, goal) or self.pinned(st.pc, goal)
        if self.quiet and ok: return True
        self.record(st, goal, kind, what, ok)
        return ok

    def pinned(self, pc, goal):
        """a loop count that the path condition pins to 0..2: unroll the sums and folds over it, then try again"""
        from loops import walk_any
        s, mp = set(), {}
        walk_any(goal, s)
        for i in s:
            a = A(i)
            if a.op not in ('sum', 'fold'): continue
            t = set()
            walk_any(a.args[1 if a.op == 'sum' else 2], t)
            for k in t:
                if k in mp or A(k).op != 'sym' or A(k).sort != 'I': continue
                for c in (0, 1, 2):
                    if self.S.prove(pc, eq(pv(A(k)) - const(c))): mp[k] = const(c); break
        if not mp: return False
        g = Subst(mp)(goal)
        return self.S.prove(pc, g, False) or self.S.prove(pc, g, True)

    def deite(self, pc, goal):
        """replace conditional terms whose condition the path decides, then try again (products of such terms are opaque to the solver)"""
        from loops import walk_any
        s = set()
        walk_any(goal, s)
        for f in pc.all(): walk_any(f, s)
        d = {}
        for i in s:
            a = A(i)
            if a.op not in ('ite', 'fite'): continue
            if self.S.prove(pc, a.args[0]): d[i] = a.args[1]
            elif self.S.prove(pc, neg(a.args[0])): d[i] = a.args[2]
        if not d: return False

        class D(Subst):
            def at(self, x):
                if x.id in d: return self(d[x.id])
                return super().at(x)
        sub = D({})
        n = ROOT
        for f in pc.all():
            n = n.add(f)
            g = sub(f)
            if g == F: return True
            if g != f and g != T: n = n.add(g)
        g = sub(goal)
        return self.S.prove(n, g) or self.S.prove(n, g, True)

    def resolved(self, pc, goal):
        """quotients and conditional terms of the goal that the path decides are replaced, outermost conditions first; then the goal is tried again"""
        E = self

        class R(Subst):
            lits = {}

            def form(self, f):
                g = super().form(f)
                if f[0] not in ('ge', 'eq') or g[0] not in ('ge', 'eq') or not self.depth: return g
                if g not in self.lits: self.lits[g] = T if E.S.prove(pc, g) else F if E.S.prove(pc, neg(g)) else g
                return self.lits[g]
            depth = 0

            def at(self, x):
                if x.op in ('ite', 'fite') and x.id not in self.memo:
                    self.depth += 1
                    c = self(x.args[0])
                    self.depth -= 1
                    v = None
                    if c not in (T, F):
                        if E.S.prove(pc, c): c = T
                        elif E.S.prove(pc, neg(c)): c = F
                    if c in (T, F): v = self(x.args[1 if c == T else 2])
                    else: v = rebuild(x, (c, self(x.args[1]), self(x.args[2])))
                    if isinstance(v, Atom) and x.sort == 'I': v = pv(v)
                    self.memo[x.id] = v
                elif x.op in ('div', 'mod') and x.id not in self.memo:
                    n, d = self(x.args[0]), self(x.args[1])
                    self.memo[x.id] = rebuild(x, (n, d)) if d.is_const() or not E.S.prove(pc, ge(d - 1)) else E.divrem(pc, x.op == 'div', n, d)
                return super().at(x)
        try: g = R({})(goal)
        except Unsupported: return False
        if g == goal: return False
        if os.environ.get('VKR'): print('RESOLVED', str(g)[:3000], flush=True)
        return self.S.prove(pc, g) or self.S.prove(pc, g, True) or self.induct(pc, g)

    def induct(self, pc, goal):
        import induct
        return induct.attempt(self.S, pc, goal)

    def record(self, st, goal, kind, what, ok):
        if not ok and kind == 'contract':
            self.nfail += 1
            if self.nfail >= 6:
                self.oblig.append({'kind': kind, 'what': what, 'ok': ok, 'pc': st.pc, 'goal': goal, 'fn': self.curfn, 'quiet': self.quiet})
                raise EnoughFailures()
        self.oblig.append({'kind': kind, 'what': what, 'ok': ok, 'pc': st.pc, 'goal': goal, 'fn': self.curfn, 'quiet': self.quiet})

    def fail(self, st, kind, what):
        if not self.S.feasible(st.pc, True): return
        self.record(st, F, kind, what, False)

    # ------------------------------------------------------------ operands
    def operand(self, st, env, ty, v):
        k = v[0]
        if k == 'v': 
            return env[v[1]]
        if k == 'c':
            if ty[0] == 'i' and ty[1] == 1: return T if v[1] else F
            return norm(const(v[1]), width(ty))
        if k == 'null': return NULL
        if k == 'g': return self.global_ptr(st, v[1][1:])
        if k == 'fc':
            return self.fconst(v[1], v[2])
        if k in ('undef',): 
            return self.undef(ty)
        if k == 'zero': return self.zeroagg(ty)
        if k == 'agg':
            return Agg(self.operand(st, env, t, x) for t, x in v[1])
        if k == 'cgep':
            b = self.operand(st, env, v[2][0][0], v[2][0][1])
            return self.gep(st, env, v[1], v[2], b)
        if k == 'ccast':
            x = self.operand(st, env, v[2], v[3])
            return self.cast(st.pc, v[1], v[2], v[4], x)
        if k == 'cbin':
            a = self.operand(st, env, v[3], v[4]); b = self.operand(st, env, v[3], v[5])
            if v[1] == 'icmp': return self.icmp(st.pc, v[2], v[3], a, b)
            return self.bin(st.pc, v[1], set(), v[3], a, b)
        if k == 'md': return None
        raise Unsupported(f'operand {v}')

    def undef(self, ty):
        t = self.mod.res(ty)
        if t[0] == 'struct': return Agg(self.undef(x) for x in t[1])
        if t[0] in ('arr', 'vec'): return Agg(self.undef(t[2]) for _ in range(t[1]))
        return Undef(t)

    def zeroagg(self, ty):
        t = self.mod.res(ty)
        if t[0] == 'struct': return Agg(self.zeroagg(x) for x in t[1])
        if t[0] in ('arr', 'vec'): return Agg(self.zeroagg(t[2]) for _ in range(t[1]))
        return self.zero_of(t)

    def gep(self, st, env, bt, ops, b):
        if isinstance(b, PIte): return PIte(b.c, self.gep(st, env, bt, ops, b.a), self.gep(st, env, bt, ops, b.b))
        if isinstance(b, (Undef, Junk, FPtr)): return b
        if isinstance(b, Poly): b = self.i2p(b)
        off = b.off
        t = bt
        first = True
        for it, iv in ops[1:]:
            i = self.operand(st, env, it, iv)
            i = self.toint(i)
            if it[1] < 64: i = self.sgn(st.pc, i, it[1])
            else: i = norm(i, 64)
            if first:
                off = off + i * self.mod.sizeof(t); first = False
                continue
            r = self.mod.res(t)
            if r[0] == 'struct':
                off = off + self.mod.layout(r)[2][i.cval()]
                t = r[1][i.cval()]
            else:
                t = r[2]
                off = off + i * self.mod.sizeof(t)
        return Ptr(b.r, collapse(norm(off, 64)))

    # ------------------------------------------------------------ scalar ops
    def bin(self, pc, op, flags, ty, a, b):
        if ty[0] == 'vec':
            return Agg(self.bin(pc, op, flags, ty[2], x, y) for x, y in zip(a.e, b.e))
        if ty[0] == 'f':
            return self.fbin(op, self.tofl(a), self.tofl(b), ty[1])
        n = ty[1]
        if n == 1:
            a, b = self.tobool(a), self.tobool(b)
            if op == 'and' or op == 'mul': return conj(a, b)
            if op == 'or': return disj(a, b)
            if op in ('xor', 'add', 'sub'): return disj(conj(a, neg(b)), conj(neg(a), b))
            raise Unsupported('i1 ' + op)
        a, b = self.toint(a, n), self.toint(b, n)
        if op == 'add': return collapse(norm(a + b, n))
        if op == 'sub': return norm(a - b, n)
        if op == 'mul': return norm(a * b, n)
        if op in ('shl', 'lshr', 'ashr') and b.is_const() and b.cval() % (1 << n) >= n: return pv(fresh('poison', 'I', 0, (1 << n) - 1))
        if op == 'shl':
            if b.is_const(): return norm(a * (1 << b.cval()), n)
            if a.is_const() and a.cval() == 1: return self.pow2(pc, b, n)
            raise Unsupported('shl by symbolic')
        if op in ('lshr', 'ashr'):
            if not b.is_const(): raise Unsupported('shr by symbolic')
            c = 1 << b.cval()
            x = self.uns(pc, a, n) if op == 'lshr' else self.sgn(pc, a, n)
            return self.divsimp(pc, x, c)
        if op in ('udiv', 'urem'):
            x, y = self.uns(pc, a, n), self.uns(pc, b, n)
            return self.divrem(pc, op == 'udiv', x, y)
        if op in ('sdiv', 'srem'):
            x, y = self.sgn(pc, a, n), self.sgn(pc, b, n)
            if op == 'sdiv' and y.is_const() and y.cval() > 0:
                q = x.divc(y.cval())
                if q is not None: return q
            if op == 'srem' and y.is_const() and y.cval() > 0 and x.divc(y.cval()) is not None: return ZERO
            if self.S.prove(pc, ge(x)) and self.S.prove(pc, ge(y - 1)): return self.divrem(pc, op == 'sdiv', x, y)
            lo, hi = x.iv()
            return pv(atom('fapp', (op, x, y), 'I', -(1 << (n - 1)), (1 << (n - 1)) - 1))
        if op == 'and':
            for x, y in ((a, b), (b, a)):
                if y.is_const():
                    m = y.cval() % (1 << n)
                    if m == 0: return ZERO
                    if m == (1 << n) - 1: return x
                    if m & (m + 1) == 0:
                        return self.modsimp(pc, norm(x, n), m + 1)
                    inv = (1 << n) - 1 - m
                    if inv & (inv + 1) == 0:
                        u = self.uns(pc, x, n)
                        return u - self.modsimp(pc, u, inv + 1)
                    # contiguous mask shifted
                    tz = (m & -m).bit_length() - 1
                    mm = m >> tz
                    if mm & (mm + 1) == 0:
                        u = self.uns(pc, x, n)
                        return pmod(pdivc(u, 1 << tz), mm + 1) * (1 << tz)
        if op == 'or':
            if 'disjoint' in flags: return collapse(norm(a + b, n))
            for x, y in ((a, b), (b, a)):
                if x.is_const() and x.cval() == 0: return y
                # x multiple of 2^t, y < 2^t
                u = self.uns(pc, y, n)
                lo, hi = u.iv()
                if hi is not None:
                    t = hi.bit_length()
                    g = 0
                    for m_, c in x.d.items(): g = gcd(g, c)
                    if g and g % (1 << t) == 0: return collapse(norm(x + y, n))
        if op == 'xor':
            for x, y in ((a, b), (b, a)):
                if y.is_const() and y.cval() in (-1, (1 << n) - 1): return norm(-x - 1, n)
            if a == b: return ZERO
        x, y = self.uns(pc, a, n), self.uns(pc, b, n)
        if x.is_const() and y.is_const():
            return norm(const({'and': x.cval() & y.cval(), 'or': x.cval() | y.cval(), 'xor': x.cval() ^ y.cval()}[op]), n)
        if repr(x) > repr(y): x, y = y, x
        return pv(atom('fapp', (op + str(n), x, y), 'I', 0, (1 << n) - 1))

    def pow2(self, pc, b, n):
        return pv(atom('fapp', ('pow2', b), 'I', 0, (1 << n) - 1))

    def divsimp(self, pc, x, c):
        q = x.divc(c)
        if q is not None: return q
        r = pdivc(x, c)
        return r

    def modsimp(self, pc, x, c):
        return pmod(x, c)

    def divrem(self, pc, isdiv, x, y):
        if y.is_const() and y.cval() > 0:
            return pdivc(x, y.cval()) if isdiv else pmod(x, y.cval())
        if y.is_const(): raise Unsupported('division by zero constant')
        q, r = polydivmod(x, y)
        for t in (0, -1, 1):
            rr = r - y * t
            qq = q + t
            if self.S.prove(pc, conj(ge(rr), ge(y - rr - 1))):
                return qq if isdiv else rr
        return pdiv(x, y) if isdiv else pmods(x, y)

    def cast(self, pc, op, ft, tt, v):
        if tt[0] == 'vec':
            return Agg(self.cast(pc, op, ft[2], tt[2], x) for x in v.e)
        if isinstance(v, Undef): return Undef(tt)
        if op == 'trunc':
            if tt[1] == 1: return self.tobool(v)
            return norm(v, tt[1])
        if op == 'zext':
            if ft[1] == 1: return self.toint(v)
            return self.uns(pc, v, ft[1])
        if op == 'sext':
            if ft[1] == 1: return -self.toint(v)
            return self.sgn(pc, v, ft[1])
        if op == 'ptrtoint': return norm(self.p2i(v), tt[1])
        if op == 'inttoptr': return self.i2p(v)
        if op == 'bitcast':
            if ft == tt: return v
            return self.coerce(pc, v, ft, tt, self.mod.sizeof(tt))
        if op in ('sitofp', 'uitofp'):
            if ft[1] == 1: v = self.toint(v) if op == 'uitofp' else -self.toint(v)
            x = self.sgn(pc, v, ft[1]) if op == 'sitofp' else self.uns(pc, v, ft[1])
            if x.is_const() and abs(x.cval()) < (1 << 53) and tt[1] == 'double': return self.fval(float(x.cval()), 'double')
            return self.fapp('itofp_' + tt[1], x)
        if op in ('fptosi', 'fptoui'):
            n = tt[1]
            v = self.tofl(v)
            y = self.fpy(v)
            if y is not None and ft[1] == 'double': return norm(const(int(y)), n)
            lo, hi = (-(1 << (n - 1)), (1 << (n - 1)) - 1) if op == 'fptosi' else (0, (1 << n) - 1)
            if v.op == 'fapp' and v.args[0] == 'itofp_double':
                p = v.args[1]
                l, h = p.iv()
                # exact while |p| < 2^53
                if self.S.prove(pc, conj(ge(p + (1 << 53)), ge((1 << 53) - p), ge(p - lo), ge(hi - p))): return p
            for k in ('double', 'float'):
                if k != ft[1]: continue
                x = dy(v, k)
                if x:      # exact, but the sign or range needs the path condition
                    p, e = x
                    if e and self.S.prove(pc, ge(p)): p = pdivc(p, 1 << e)
                    elif e: break
                    if self.S.prove(pc, conj(ge(p - lo), ge(hi - p))): return p
            r = self.fapp(f'{op}{n}', v, sort='I', lo=lo, hi=hi)
            return pv(r) if isinstance(r, Atom) else r
        if op in ('fpext', 'fptrunc'):
            v = self.tofl(v)
            y = self.fpy(v)
            if y is not None and op == 'fpext' and tt[1] == 'double': return self.fval(y, 'double')
            if v.op == 'fapp' and v.args[0] == f'fpext_{ft[1]}' and op == 'fptrunc' and v.args[2] == tt[1]: return v.args[1]
            return self.fapp(op + '_' + tt[1], v, ft[1]) if op == 'fpext' else self.fapp(op + '_' + tt[1], v)
        raise Unsupported('cast ' + op)

    def vite(self, c, a, b):
        """value conditional"""
        if c == T: return a
        if c == F: return b
        if a == b and type(a) is type(b): return a
        if isinstance(a, Undef): return b
        if isinstance(b, Undef): return a
        if isinstance(a, Poly): return ite(c, a, b)
        if isinstance(a, tuple): return disj(conj(c, a), conj(neg(c), b))
        if isinstance(a, Atom): return fite(c, a, b)
        if isinstance(a, (Ptr, FPtr, PIte)):
            if isinstance(a, Ptr) and isinstance(b, Ptr) and a.r == b.r and a.r != 0: return Ptr(a.r, ite(c, a.off, b.off))
            return PIte(c, a, b)
        if isinstance(a, Agg): return Agg(self.vite(c, x, y) for x, y in zip(a.e, b.e))
        raise Unsupported(f'select of {a!r}')

    # ------------------------------------------------------------ function execution
    def call(self, st, name, args, ins=None):
        """-> [('ret', st, val) | ('exn', st)]"""
        name = self.mod.aliases.get(name, name)
        if time.time() > self.deadline: raise Abort('time budget')
        m = self.find_model(name)
        if m is not None:
            r = m(self, st, args, name, ins)
            if r is not NotImplemented:
                return r
        f = self.mod.funcs.get(name)
        if f is None:
            raise Unsupported('external function ' + name)
        if self.depth > 80: raise Unsupported('recursion')
        f.parse()
        self.fnseen[name] = self.fnseen.get(name, 0) + 1
        env = {}
        for (ty, nm), v in zip(f.params, args): env[nm] = v
        if f.vararg: raise Unsupported('vararg')
        for nm, t in f.byval.items():       # passed by value: the callee works on its own copy
            src, n = env[nm], self.mod.sizeof(t)
            sts = [s for s, _ in self.ptrs(st, src)]
            if len(sts) != 1: raise Unsupported('by-value argument')
            r = self.new_region(st, f'{name[:40]}{nm}', const(n), 'stack')
            env[nm] = Ptr(r, ZERO)
            sts = self.memcpy(st, env[nm], src, const(n))
            if len(sts) != 1: raise Unsupported('by-value argument')
            st = sts[0]
        self.depth += 1
        saved = getattr(self, 'curfn', None)
        self.curfn = name
        try:
            evs = self.run(f, f.entry, None, env, st, None, None)
        finally:
            self.depth -= 1
            self.curfn = saved
        out = []
        for e in evs:
            if e[0] in ('ret', 'exn'): out.append(e)
            else: raise Unsupported('escape event ' + e[0])
        return out

    def find_model(self, name):
        return None

    def run(self, f, blk, prev, env, st, body, header, start_at_header=False):
        """execute from edge prev->blk until leaving `body`.
        events: ('ret',st,v) ('exn',st) ('back',st,env,from) ('edge',st,env,from,to)"""
        events = []
        work = [(blk, prev, env, st, start_at_header)]
        while work:
            blk, prev, env, st, skiphdr = work.pop()
            while True:
                # entering blk from prev
                if body is not None and not skiphdr:
                    if blk == header:
                        events.append(('back', st, env, prev)); break
                    if blk not in body:
                        events.append(('edge', st, env, prev, blk)); break
                if blk in f.loops and not skiphdr:
                    self.curfn = f.name
                    evs = self.run_loop(f, blk, prev, env, st)
                    nxt = []
                    for e in evs:
                        if e[0] == 'edge': nxt.append((e[4], e[3], e[2], e[1], False))
                        else: events.append(e)
                    work.extend(nxt)
                    break
                # phis (simultaneous)
                ins_list = f.blocks[blk]
                i = 0
                if not skiphdr:
                    new = {}
                    while ins_list[i].op == 'phi':
                        ins = ins_list[i]
                        for v, l in ins.x:
                            if l == prev:
                                new[ins.res] = self.operand(st, env, ins.ty, v); break
                        else:
                            raise Unsupported('phi')
                        i += 1
                    if new:
                        env = dict(env); env.update(new)
                else:
                    while ins_list[i].op == 'phi': i += 1
                skiphdr = False
                r = self.block(f, blk, i, env, st, body, work, events)
                if r is None: break
                blk, prev, env, st = r
        return events

    def block(self, f, blk, i, env, st, body, work, events):
        """execute straight-line instructions; returns next (blk,prev,env,st) or None; forks go to work"""
        il = f.blocks[blk]
        env = dict(env)
        while True:
            self.steps += 1
            if self.steps & 255 == 0 and time.time() > self.deadline: raise Abort('time budget')
            ins = il[i]
            op = ins.op
            if op == 'load':
                rs = self.load(st, self.operand(st, env, PTR, ins.a[0]), ins.ty)
                if not rs: return None
                for s2, v in rs[1:]:
                    e2 = dict(env); e2[ins.res] = v
                    self.resume_at(f, blk, i + 1, e2, s2, body, work, events)
                st, env[ins.res] = rs[0]
            elif op == 'store':
                rs = self.store(st, self.operand(st, env, PTR, ins.a[1]), ins.ty, self.operand(st, env, ins.ty, ins.a[0]))
                if not rs: return None
                for s2 in rs[1:]: self.resume_at(f, blk, i + 1, dict(env), s2, body, work, events)
                st = rs[0]
            elif op == 'gep':
                b = self.operand(st, env, ins.a[0][0], ins.a[0][1])
                env[ins.res] = self.gep(st, env, ins.ty, ins.a, b)
            elif op == 'bin':
                a = self.operand(st, env, ins.ty, ins.a[0]); b = self.operand(st, env, ins.ty, ins.a[1])
                env[ins.res] = self.bin(st.pc, ins.x[0], ins.x[1], ins.ty, a, b)
                if ins.x[0] in ('udiv', 'sdiv', 'urem', 'srem') and ins.ty[0] == 'i':
                    self.obligation(st, neg(eq(self.uns(st.pc, self.toint(b), ins.ty[1]))), 'division', f'divisor non-zero in {f.name}')
            elif op == 'icmp':
                a = self.operand(st, env, ins.ty, ins.a[0]); b = self.operand(st, env, ins.ty, ins.a[1])
                if ins.ty[0] == 'vec':
                    env[ins.res] = Agg(self.icmp(st.pc, ins.x, ins.ty[2], x, y) for x, y in zip(a.e, b.e))
                else:
                    if ins.ty[0] == 'ptr' and (isinstance(a, PIte) or isinstance(b, PIte)):
                        rs = [(s3, x, y) for s2, x in self.ptrs(st, a) for s3, y in self.ptrs(s2, b)]
                        for s3, x, y in rs[1:]:
                            e2 = dict(env); e2[ins.res] = self.icmp(s3.pc, ins.x, ins.ty, x, y)
                            self.resume_at(f, blk, i + 1, e2, s3, body, work, events)
                        st, a, b = rs[0]
                    if ins.ty[0] == 'i' and ins.ty[1] > 1: a, b = self.toint(a, ins.ty[1]), self.toint(b, ins.ty[1])
                    if isinstance(a, Undef) or isinstance(b, Undef): env[ins.res] = ba(fresh('undefb', 'B'))
                    else: env[ins.res] = self.icmp(st.pc, ins.x, ins.ty, a, b)
            elif op == 'fcmp':
                a = self.tofl(self.operand(st, env, ins.ty, ins.a[0])); b = self.tofl(self.operand(st, env, ins.ty, ins.a[1]))
                env[ins.res] = self.fcmp(ins.x, a, b)
            elif op == 'fneg':
                a = self.tofl(self.operand(st, env, ins.ty, ins.a[0]))
                x = self.fpy(a)
                env[ins.res] = self.fval(-x, ins.ty[1]) if x is not None else (a.args[1] if a.op == 'fapp' and a.args[0] == 'fneg' else self.fapp('fneg', a))
            elif op == 'cast':
                v = self.operand(st, env, ins.x[1], ins.a[0])
                env[ins.res] = self.cast(st.pc, ins.x[0], ins.x[1], ins.ty, v)
            elif op == 'select':
                c = self.operand(st, env, ins.x, ins.a[0])
                a = self.operand(st, env, ins.ty, ins.a[1]); b = self.operand(st, env, ins.ty, ins.a[2])
                if isinstance(c, Agg):
                    env[ins.res] = Agg(self.vite(self.tobool(q), x, y) for q, x, y in zip(c.e, a.e, b.e))
                else:
                    c = self.tobool(c)
                    if c not in (T, F):
                        if self.S.prove(st.pc, c): c = T
                        elif self.S.prove(st.pc, neg(c)): c = F
                    env[ins.res] = self.vite(c, a, b)
            elif op == 'alloca':
                n = self.mod.sizeof(ins.ty)
                sz = const(n)
                if ins.x is not None: sz = self.toint(self.operand(st, env, *ins.x)) * n
                r = self.new_region(st, f'{f.name[:40]}{ins.res}', sz, 'stack')
                env[ins.res] = Ptr(r, ZERO)
            elif op == 'br':
                if len(ins.x) == 1:
                    return (ins.x[0], blk, env, st)
                c = self.tobool(self.operand(st, env, I1, ins.a[0]))
                t, e = ins.x
                if t == e: return (t, blk, env, st)
                if c == T: return (t, blk, env, st)
                if c == F: return (e, blk, env, st)
                if self.probe is not None and body is self.probe[0] and ((t in body) != (e in body)):
                    cont = c if t in body else neg(c)
                    r = self.solveN(self.probe[1], cont, self.probe[2])
                    if r is not None:
                        self.probe = self.probe[:3] + (r,)
                        raise ProbeDone()
                    st = st.clone().assume(cont)
                    return (t if t in body else e, blk, env, st)
                if self.S.prove(st.pc, c): return (t, blk, env, st)
                if self.S.prove(st.pc, neg(c)): return (e, blk, env, st)
                if self.spec is not None and body is self.spec and ((t in body) != (e in body)): raise NeedSummary()
                s2 = st.clone().assume(neg(c))
                work.append((e, blk, env, s2, False))
                st = st.clone().assume(c)
                return (t, blk, dict(env), st)
            elif op == 'switch':
                v = self.toint(self.operand(st, env, ins.ty, ins.a[0]), width(ins.ty))
                n = width(ins.ty)
                d, cs = ins.x
                rest = st
                for cv, lab in cs:
                    f_ = self.icmp(rest.pc, 'eq', ins.ty, v, const(cv))
                    if f_ == F: continue
                    if f_ == T or self.S.prove(rest.pc, f_):
                        work.append((lab, blk, env, rest, False)); rest = None; break
                    if self.S.prove(rest.pc, neg(f_)): continue
                    work.append((lab, blk, dict(env), rest.clone().assume(f_), False))
                    rest = rest.clone().assume(neg(f_))
                if rest is not None: work.append((d, blk, env, rest, False))
                return None
            elif op == 'ret':
                v = self.operand(st, env, ins.ty, ins.a[0]) if ins.a else None
                events.append(('ret', st, v))
                return None
            elif op in ('call', 'invoke'):
                cal = ins.x['callee']
                args = [self.operand(st, env, t, a) for t, a in ins.x['args']]
                if cal[0] == 'g': name = cal[1][1:]
                elif cal[0] == 'asm': raise Unsupported('inline asm')
                else:
                    fp = self.operand(st, env, PTR, cal)
                    if not isinstance(fp, FPtr): raise Unsupported(f'indirect call {fp!r} in {f.name}')
                    name = fp.n
                rs = self.call(st, name, args, ins)
                self.curfn = f.name
                cont = []
                for r in rs:
                    if r[0] == 'ret': cont.append((r[1], r[2]))
                    elif r[0] == 'exn':
                        if op == 'invoke': work.append((ins.x['unwind'], blk, env, r[1], False))
                        else: events.append(('exn', r[1]))
                if op == 'invoke':
                    for s2, v in cont:
                        e2 = dict(env)
                        if ins.res: e2[ins.res] = v
                        work.append((ins.x['normal'], blk, e2, s2, False))
                    return None
                if not cont: return None
                for s2, v in cont[1:]:
                    e2 = dict(env)
                    if ins.res: e2[ins.res] = v
                    self.resume_at(f, blk, i + 1, e2, s2, body, work, events)
                st, v = cont[0]
                if ins.res: env[ins.res] = v
            elif op == 'extractvalue':
                v = self.operand(st, env, ins.ty, ins.a[0])
                for x in ins.x:
                    v = v.e[x]
                env[ins.res] = v
            elif op == 'insertvalue':
                v = self.operand(st, env, ins.ty, ins.a[0])
                # element type
                t = ins.ty
                for x in ins.x:
                    t = self.mod.res(t); t = t[1][x] if t[0] == 'struct' else t[2]
                e = self.operand(st, env, t, ins.a[1])
                env[ins.res] = self._insv(v, ins.x, e)
            elif op == 'extractelement':
                v = self.operand(st, env, ins.ty, ins.a[0]); ix = self.operand(st, env, I64, ins.a[1])
                env[ins.res] = v.e[ix.cval()]
            elif op == 'insertelement':
                v = self.operand(st, env, ins.ty, ins.a[0]); e = self.operand(st, env, ins.ty[2], ins.a[1]); ix = self.operand(st, env, I64, ins.a[2])
                env[ins.res] = self._insv(v, [ix.cval()], e)
            elif op == 'shufflevector':
                a = self.operand(st, env, ins.ty, ins.a[0]); b = self.operand(st, env, ins.ty, ins.a[1])
                mk = self.operand(st, env, ins.x[0], ins.x[1])
                al = a.e + b.e
                env[ins.res] = Agg(al[m.cval()] if isinstance(m, Poly) else Undef(ins.ty[2]) for m in mk.e)
            elif op == 'freeze':
                v = self.operand(st, env, ins.ty, ins.a[0])
                if isinstance(v, Undef): v = self.toint(v, width(ins.ty)) if ins.ty[0] == 'i' and ins.ty[1] > 1 else v
                env[ins.res] = v
            elif op == 'landingpad':
                r = self.landing(st, ins)
                if r is None:
                    events.append(('exn', st)); return None
                env[ins.res] = r
            elif op == 'resume':
                v = self.operand(st, env, ins.ty, ins.a[0])
                if st.exn is None: raise Unsupported('resume without exception')
                events.append(('exn', st)); return None
            elif op == 'unreachable':
                self.fail(st, 'unreachable', f'unreachable code reached in {f.name}')
                return None
            else:
                raise Unsupported('instruction ' + op + ' ' + str(ins.x))
            i += 1

    def resume_at(self, f, blk, i, env, st, body, work, events):
        """continue a forked state from the middle of a block"""
        r = self.block(f, blk, i, env, st, body, work, events)
        if r is not None: work.append((r[0], r[1], r[2], r[3], False))

    def _insv(self, v, idx, e):
        l = list(v.e)
        if len(idx) == 1: l[idx[0]] = e
        else: l[idx[0]] = self._insv(l[idx[0]], idx[1:], e)
        return Agg(l)

    spec = None
    probe = None

    # ------------------------------------------------------------ exceptions
    PARENT = {'_ZTISt12out_of_range': '_ZTISt11logic_error', '_ZTISt12length_error': '_ZTISt11logic_error', '_ZTISt16invalid_argument': '_ZTISt11logic_error',
              '_ZTISt12domain_error': '_ZTISt11logic_error', '_ZTISt11logic_error': '_ZTISt9exception', '_ZTISt13runtime_error': '_ZTISt9exception',
              '_ZTISt14overflow_error': '_ZTISt13runtime_error', '_ZTISt15underflow_error': '_ZTISt13runtime_error', '_ZTISt11range_error': '_ZTISt13runtime_error', '_ZTISt9bad_alloc': '_ZTISt9exception',
              '_ZTISt20bad_array_new_length': '_ZTISt9bad_alloc', '_ZTISt8bad_cast': '_ZTISt9exception', '_ZTISt17bad_function_call': '_ZTISt9exception',
              '_ZTISt12system_error': '_ZTISt13runtime_error', '_ZTISt12format_error': '_ZTISt13runtime_error', '_ZTISt18bad_variant_access': '_ZTISt9exception',
              '_ZTISt19bad_optional_access': '_ZTISt9exception', '_ZTISt12bad_any_cast': '_ZTISt8bad_cast'}

    def isa(self, t, c):
        seen = 0
        todo = [t]
        while todo:
            x = todo.pop()
            if x == c: return True
            if x in self.PARENT: todo.append(self.PARENT[x])
            else:
                for y in re.findall(r'@(_ZTI[\w]+)', self.mod.gtext.get(x, '')):
                    if y != x: todo.append(y)
            seen += 1
            if seen > 30: break
        return False

    def typeid(self, n):
        if n not in self.typeids: self.typeids[n] = len(self.typeids) + 1
        return self.typeids[n]

    def landing(self, st, ins):
        t, obj = st.exn
        for k, v in ins.x:
            if k == 'cleanup': continue
            if k == 'catch':
                if v[0] == 'null': return Agg((obj, const(self.typeid('*'))))
                n = v[1][1:]
                if self.isa(t, n): return Agg((obj, const(self.typeid(n))))
            if k == 'filter':
                return Agg((obj, const(-1)))
        if any(k == 'cleanup' for k, _ in ins.x): return Agg((obj, ZERO))
        return None

    def throw(self, st, tname):
        r = self.new_region(st, 'exn', None, 'heap')
        st.exn = (tname, Ptr(r, ZERO))
        return [('exn', st)]
