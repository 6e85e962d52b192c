"""Proof queries: path condition |- goal.   Decided by Z3 (linear abstraction with product lemmas, then full NIA)."""
import z3, time
from math import gcd
from terms import *

FS = z3.DeclareSort('Fl')
STATS = {'queries': 0, 'z3': 0, 'time': 0.0, 'lin': 0, 'prod': 0, 'nia': 0}


class PC:
    __slots__ = ('parent', 'f', 'depth', 'set', 'memo')

    def __init__(self, parent, f):
        self.parent, self.f = parent, f
        self.depth = 0 if parent is None else parent.depth + 1
        self.memo = {}
        self.set = None

    def add(self, f):
        if f == T: return self
        if f[0] == 'and':
            r = self
            for g in f[1]: r = r.add(g)
            return r
        if self.has(f): return self
        return PC(self, f)

    def has(self, f):
        n = self
        while n is not None:
            if n.f == f: return True
            n = n.parent
        return False

    def all(self):
        out = []
        n = self
        while n.parent is not None:
            out.append(n.f)
            n = n.parent
        return out[::-1]


ROOT = PC(None, T)


_C = z3.main_ctx().ref()


def _nary(f, es):
    n = len(es)
    a = (z3.Ast * n)(*[e.ast for e in es])
    return z3.ArithRef(f(_C, n, a), z3.main_ctx())


class Tr:
    """formula -> z3.  nl=False: every monomial of degree>=2 is its own integer constant."""

    def __init__(self, nl=False):
        self.nl = nl
        self.memo = {}
        self.fn = {}
        self.mon = {}
        self.pmemo, self.fmemo, self.nums, self.amemo = {}, {}, {}, {}

    def func(self, key, dom, rng):
        k = (key, tuple(map(str, dom)), str(rng))
        f = self.fn.get(k)
        if f is None:
            f = z3.Function(f'f{len(self.fn)}_{key if isinstance(key, str) else key[0]}', *dom, rng)
            self.fn[k] = f
        return f

    def rng(self, sort):
        return z3.IntSort() if sort == 'I' else (z3.BoolSort() if sort == 'B' else FS)

    def at(self, a, ax):
        """z3 expr of atom; collects ids of touched atoms in ax (a set)"""
        r = self.memo.get(a.id)
        if r is not None:
            ax |= r[1]
            return r[0]
        own = {a.id}
        if a.op == 'sym':
            e = z3.Const(a.args[0], self.rng(a.sort))
        elif a.op in ('ite', 'fite'):
            e = z3.If(self.form(a.args[0], own), self.any(a.args[1], own), self.any(a.args[2], own))
        else:
            keyparts = [a.op]
            zs = []
            for y in a.args: self._arg(y, own, keyparts, zs)
            if not zs:
                e = z3.Const(f'c{a.id}', self.rng(a.sort))
            else:
                e = self.func(tuple(map(str, keyparts)), [z.sort() for z in zs], self.rng(a.sort))(*zs)
        self.memo[a.id] = (e, frozenset(own))
        ax |= own
        return e

    def _arg(self, y, ax, keyparts, zs):
        if isinstance(y, (Poly, Atom)):
            zs.append(self.any(y, ax)); keyparts.append('_')
        elif isinstance(y, tuple) and y and y[0] in ('T', 'F', 'ge', 'eq', 'not', 'and', 'or', 'b', 'feq'):
            zs.append(self.form(y, ax)); keyparts.append('_')
        elif isinstance(y, tuple):
            keyparts.append('(')
            for q in y: self._arg(q, ax, keyparts, zs)
            keyparts.append(')')
        else:
            keyparts.append(repr(y))

    def any(self, x, ax):
        if isinstance(x, Poly): return self.poly(x, ax)
        if isinstance(x, Atom): return self.at(x, ax)
        return self.form(x, ax)

    def mono(self, m, ax):
        if len(m) == 1: return self.at(A(m[0]), ax)
        es = [self.at(A(i), ax) for i in m]
        if self.nl:
            return z3.Product(es)
        e = self.mon.get(m)
        if e is None:
            e = z3.Int('m' + '_'.join(map(str, m)))
            self.mon[m] = e
        ax.add(m)
        return e

    def num(self, c):
        e = self.nums.get(c)
        if e is None: e = self.nums[c] = z3.IntVal(c)
        return e

    def poly(self, p, ax):
        r = self.pmemo.get(p)
        if r is not None:
            ax |= r[1]
            return r[0]
        own = set()
        ts = []
        for m, c in p.d.items():
            if not m: ts.append(self.num(c))
            else:
                e = self.mono(m, own)
                ts.append(e if c == 1 else _nary(z3.Z3_mk_mul, (self.num(c), e)))
        if not ts: e = self.num(0)
        else: e = ts[0] if len(ts) == 1 else _nary(z3.Z3_mk_add, ts)
        if len(self.pmemo) > 200000: self.pmemo.clear()
        self.pmemo[p] = (e, frozenset(own))
        ax |= own
        return e

    def form(self, f, ax):
        k = f[0]
        if k == 'T': return z3.BoolVal(True)
        if k == 'F': return z3.BoolVal(False)
        r = self.fmemo.get(f)
        if r is not None:
            ax |= r[1]
            return r[0]
        own = set()
        if k == 'ge': e = z3.BoolRef(z3.Z3_mk_ge(_C, self.poly(f[1], own).ast, self.num(0).ast), z3.main_ctx())
        elif k == 'eq': e = z3.BoolRef(z3.Z3_mk_eq(_C, self.poly(f[1], own).ast, self.num(0).ast), z3.main_ctx())
        elif k == 'not': e = z3.BoolRef(z3.Z3_mk_not(_C, self.form(f[1], own).ast), z3.main_ctx())
        elif k == 'and': e = z3.And([self.form(x, own) for x in f[1]])
        elif k == 'or': e = z3.Or([self.form(x, own) for x in f[1]])
        elif k == 'b': e = self.at(f[1], own)
        elif k == 'feq': e = self.at(f[1], own) == self.at(f[2], own)
        else: raise ValueError(f)
        if len(self.fmemo) > 200000: self.fmemo.clear()
        self.fmemo[f] = (e, frozenset(own))
        ax |= own
        return e

    def axioms(self, i, ax):
        """defining facts of a touched atom / monomial"""
        out = []
        if isinstance(i, tuple):           # monomial: interval
            lo, hi = Poly({i: 1}).iv()
            e = self.mon[i]
            if lo is not None: out.append(e >= lo)
            if hi is not None: out.append(e <= hi)
            return out
        a = A(i)
        if a.op == 'fapp' and a.sort == 'F' and len(a.args) == 3 and isinstance(a.args[0], str) and a.args[0][:5] in ('fadd_', 'fmul_'):
            x, y = self.any(a.args[1], ax), self.any(a.args[2], ax)          # commutative
            if not x.eq(y):
                e = self.at(a, ax)
                out.append(e.decl()(y, x) == e)
        if a.sort == 'I' and a.op != 'ite':
            e = self.at(a, ax)
            if a.lo is not None: out.append(e >= a.lo)
            if a.hi is not None: out.append(e <= a.hi)
            if a.op == 'modc':
                q = z3.Int(f'q{a.id}')
                out.append(self.poly(a.args[0], ax) == a.args[1] * q + e)
            elif a.op == 'divc':
                p = self.poly(a.args[0], ax)
                out.append(a.args[1] * e <= p)
                out.append(p <= a.args[1] * e + a.args[1] - 1)
            elif a.op == 'div':
                p, d = a.args
                r = p - d * pv(a)
                zd = self.poly(d, ax); zr = self.poly(r, ax)
                out.append(z3.Implies(zd >= 1, z3.And(zr >= 0, zr <= zd - 1)))
            elif a.op == 'fapp' and len(a.args) == 3 and isinstance(a.args[0], str) and a.args[0][:2] in ('or', 'xo', 'an') and a.args[0].lstrip('andxor').isdigit():
                x, y = self.poly(a.args[1], ax), self.poly(a.args[2], ax)
                w = int(a.args[0].lstrip('andxor'))
                h = 1 << (w - 1)
                if a.args[0].startswith('or'): out += [e >= x, e >= y, e <= x + y, (e >= h) == z3.Or(x >= h, y >= h)]
                elif a.args[0].startswith('and'): out += [e <= x, e <= y, e >= 0, (e >= h) == z3.And(x >= h, y >= h)]
                else: out += [e <= x + y, e >= x - y, e >= y - x, (e >= h) == z3.Xor(x >= h, y >= h), (e == 0) == (x == y)]
            elif a.op == 'mod':
                p, d = a.args
                q = atom('div', (p, d), 'I')
                zd = self.poly(d, ax)
                out.append(z3.Implies(zd >= 1, z3.And(e >= 0, e <= zd - 1, e == self.poly(p - d * pv(q), ax))))
        return out


class Solver:
    def __init__(self):
        self.tr = Tr(False)
        self.s = z3.SolverFor('QF_UFLIA')
        self.s.set('timeout', 1500)
        self.stack = [(ROOT, set())]      # (pcnode, touched)
        self.cache = {}
        self.nia_timeout = 4000

    def _touched(self, x):
        for _, t in self.stack:
            if x in t: return True
        return False

    def _assert(self, f, touched):
        ax = set()
        z3.Z3_solver_assert(_C, self.s.solver, self.tr.form(f, ax).ast)
        self._ax(ax, touched)

    def _ax(self, ax, touched):
        work = list(ax)
        while work:
            i = work.pop()
            if i in touched or self._touched(i): continue
            touched.add(i)
            n = set()
            a = None if isinstance(i, tuple) else A(i)
            key = (i, a and a.lo, a and a.hi)
            r = self.tr.amemo.get(key)
            if r is None:
                r = (self.tr.axioms(i, n), n)
                if a is not None: self.tr.amemo[key] = r
            for e in r[0]: z3.Z3_solver_assert(_C, self.s.solver, e.ast)
            work.extend(r[1])

    def sync(self, pc):
        # find chain
        chain = []
        n = pc
        while n is not None:
            chain.append(n); n = n.parent
        chain.reverse()
        k = 0
        while k < len(self.stack) and k < len(chain) and self.stack[k][0] is chain[k]: k += 1
        while len(self.stack) > k:
            self.stack.pop(); self.s.pop()
        for n in chain[k:]:
            self.s.push()
            t = set()
            self.stack.append((n, t))
            self._assert(n.f, t)

    def prove(self, pc, goal, strong=False):
        STATS['queries'] += 1
        if goal == T: return True
        if goal[0] == 'and':
            return all(self.prove(pc, g, strong) for g in goal[1])
        if goal == F: return not self.feasible(pc, strong)
        if pc.has(goal): return True
        key = goal
        r = pc.memo.get(key)
        if r is not None and (r[0] or not strong or r[1]): return r[0]
        t0 = time.time()
        v = self._check(pc, neg(goal), strong)
        STATS['time'] += time.time() - t0
        pc.memo[key] = (v, strong)
        return v

    def feasible(self, pc, strong=False):
        r = pc.memo.get('feas')
        if r is None or (r[0] and strong and not r[1]):
            t0 = time.time()
            r = (not self._check(pc, T, strong), strong)
            STATS['time'] += time.time() - t0
            pc.memo['feas'] = r
        return r[0]

    def _check(self, pc, extra, strong):
        """True if pc /\\ extra is unsat"""
        STATS['z3'] += 1
        self.sync(pc)
        self.s.push()
        touched = set()
        self.stack.append((None, touched))
        try:
            self._assert(extra, touched)
            r = self.s.check()
            if r == z3.unsat:
                STATS['lin'] += 1
                return True
            M = set()
            for _, t in self.stack:
                for x in t:
                    if isinstance(x, tuple): M.add(x)
            if not M: 
                return False if not strong else self._nia(pc, extra)
            if self._digits(pc, extra, touched):
                if self.s.check() == z3.unsat:
                    STATS['prod'] += 1
                    return True
            for tier in (0, 1):
                n = self._products(pc, extra, M, touched, tier)
                if n == 0: continue
                r = self.s.check()
                if r == z3.unsat:
                    STATS['prod'] += 1
                    return True
                if not strong and tier == 0 and False: break
        finally:
            self.stack.pop()
            self.s.pop()
        if strong: return self._nia(pc, extra)
        return False

    def _hyps(self, pc, extra):
        ge_, eq_ = [], []

        def add(f):
            if f[0] == 'ge': ge_.append(f[1])
            elif f[0] == 'eq': eq_.append(f[1])
            elif f[0] == 'and':
                for g in f[1]: add(g)
        add(extra)
        n = pc
        while n is not None:
            add(n.f); n = n.parent
        return ge_, eq_

    def _lin(self, f):
        """does f follow linearly from what is asserted now?"""
        if f == T: return True
        self.s.push()
        t = set()
        self.stack.append((None, t))
        try:
            self._assert(neg(f), t)
            return self.s.check() == z3.unsat
        finally:
            self.stack.pop(); self.s.pop()

    def _digits(self, pc, extra, touched):
        """mixed-radix lemma: u + A*v == 0 and |u| < A  =>  u == 0, v == 0   (u + A*v >= 0 and u < A => v >= 0)"""
        ge_, eq_ = self._hyps(pc, extra)
        todo = [('eq', e) for e in eq_ if e.deg() >= 2] + [('ge', e) for e in ge_ if e.deg() >= 2]
        todo = todo[-14:]
        seen = set(todo)
        cnt = tries = 0
        while todo and tries < 40:
            k, e = todo.pop(0)
            g = 0
            for m, c in e.d.items():
                if m or k == 'eq': g = gcd(g, c)
            if g > 1: e = Poly({m: c // g for m, c in e.d.items() if c // g})
            cand = {}
            for m in e.d:
                if len(m) >= 2:
                    for i in set(m): cand[i] = cand.get(i, 0) + 1
            As = []
            for i in sorted(cand, key=lambda i: -cand[i]):
                a = A(i)
                if a.sort == 'I' and a.lo is not None and a.lo >= 0: As.append(pv(a))
            n0 = len(As)
            for i in cand:
                # a compound stride: the coefficient of some variable, e.g. (W + 2*margin)
                co = {}
                for m, c in e.d.items():
                    if m.count(i) == 1:
                        mm = list(m); mm.remove(i); co[tuple(mm)] = c
                co = Poly(co)
                if len(co.d) < 2 or co.deg() != 1: continue
                gg = 0
                for c in co.d.values(): gg = gcd(gg, c)
                co = co.divc(gg)
                if sum(1 for c in co.d.values() if c < 0) * 2 > len(co.d): co = -co
                if co not in As: As.append(co)
            for ai in As[:n0 + 4]:
                if ai.deg() == 1 and len(ai.d) == 1:
                    (i,), = ai.d
                    u, v = {}, {}
                    ok = True
                    for m, c in e.d.items():
                        n = m.count(i)
                        if n == 0: u[m] = c
                        elif n == 1:
                            mm = list(m); mm.remove(i); v[tuple(mm)] = c
                        else: ok = False
                    if not ok: continue
                    u, v = Poly(u), Poly(v)
                else:
                    v, u = polydivmod(e, ai)
                    if not v.d or not self._lin(ge(ai)): continue
                if v.is_const(): continue
                tries += 1
                # sign of the product: A >= 0 and v >= c  =>  A*v >= c*A  (c in 1, 0, and the mirrored bounds)
                for c, w in ((1, v), (1, -v), (0, v), (0, -v)):
                    f = ('ge', w * ai - ai * c)
                    if f in seen: break
                    if self._lin(ge(w - c)):
                        seen.add(f)
                        self._assert(ge(f[1]), touched)
                        cnt += 1
                        break
                if not self._lin(ge(ai - u - 1)): continue
                if k == 'eq':
                    if not self._lin(ge(ai + u - 1)): continue
                    new = [('eq', v), ('eq', u), ('eq', v * ai)]
                else:
                    if self._lin(ge(-u - 1)): v = v - 1
                    new = [('ge', v), ('ge', v * ai)]
                for f in new:
                    if f in seen: continue
                    seen.add(f)
                    self._assert(eq(f[1]) if f[0] == 'eq' else ge(f[1]), touched)
                    cnt += 1
                    if f[1].deg() >= 2 and f[1] != v * ai: todo.append(f)
        return cnt

    def _products(self, pc, extra, M, touched, tier):
        ge_, eq_ = self._hyps(pc, extra)
        ats = set()
        for m in M: ats.update(m)
        # relevant hypotheses: all atoms touching M atoms
        hs = []
        seen = set()
        for p in ge_:
            if p.deg() <= 2 and (p.atoms() & ats) and p not in seen and len(p.d) <= 8:
                seen.add(p); hs.append(p)
        for i in ats:
            a = A(i)
            if a.lo is not None:
                p = pv(a) - a.lo
                if p not in seen: seen.add(p); hs.append(p)
            if a.hi is not None and a.hi < 2**40:
                p = a.hi - pv(a)
                if p not in seen: seen.add(p); hs.append(p)
            if a.op in ('mod', 'div'):
                # 0 <= r < d
                pp, d = a.args
                r = pv(a) if a.op == 'mod' else pp - d * pv(a)
                for p in ([d - r - 1] if a.op == 'mod' else [d - r - 1, r]):
                    if p not in seen and self.s is not None:
                        pass
        if len(hs) > 40: hs = hs[:40]
        cnt = 0
        new = []
        for x in range(len(hs)):
            for y in range(x, len(hs)):
                p, q = hs[x], hs[y]
                if p.deg() + q.deg() > 4: continue
                r = _mul(p, q)
                nlm = [m for m in r.d if len(m) >= 2]
                if not nlm: continue
                bad = sum(1 for m in nlm if m not in M)
                if bad > (0 if tier == 0 else 1): continue
                if bad == len(nlm): continue
                new.append(('ge', r)); cnt += 1
                if cnt > 300: break
            if cnt > 300: break
        for e in eq_:
            if not (e.atoms() & ats) or e.deg() > 2: continue
            for i in ats:
                r = _mul(e, pv(A(i)))
                nlm = [m for m in r.d if len(m) >= 2]
                bad = sum(1 for m in nlm if m not in M)
                if not nlm or bad > (0 if tier == 0 else 1) or bad == len(nlm): continue
                new.append(('eq', r)); cnt += 1
        for f in new:
            self._assert(f, touched)
        return cnt

    def _nia(self, pc, extra, want_model=False):
        STATS['nia'] += 1
        tr = Tr(True)
        s = z3.Solver()
        s.set('timeout', self.nia_timeout)
        touched = set()
        work = []
        for f in pc.all() + [extra]:
            ax = set()
            s.add(tr.form(f, ax))
            work.extend(ax)
        while work:
            i = work.pop()
            if i in touched or isinstance(i, tuple): continue
            touched.add(i)
            n = set()
            for e in tr.axioms(i, n): s.add(e)
            work.extend(n)
        r = s.check()
        if want_model:
            return r, (s.model() if r == z3.sat else None), tr
        return r == z3.unsat

    def model(self, pc, extra):
        return self._nia(pc, extra, True)


_mc = {}


def _mul(p, q):
    k = (p, q)
    r = _mc.get(k)
    if r is None:
        r = p * q
        _mc[k] = r
    return r
