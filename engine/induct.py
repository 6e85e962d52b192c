"""Lemmas about sums and folds (the closed forms of accumulating loops): canonical sums, and induction over folds."""
from terms import *
from solver import PC, ROOT
import loops as _l


def mentions(x, op):
    s = set()
    walk_atoms(x, s)
    return [A(i) for i in s if A(i).op == op]


# ------------------------------------------------------------------ sums
def _bound(lvl): return atom('bv', (lvl, 0), 'I', 0)


class _Div(Subst):
    """m*b -> b everywhere (a guess, verified by the caller)"""

    def __init__(self, b, m):
        super().__init__({})
        self.b, self.m = b, m

    def poly(self, p):
        acc = ZERO
        for k, c in p.d.items():
            if k == (self.b.id,):
                if c % self.m: raise ValueError
                acc = acc + Poly({k: c // self.m})
                continue
            if self.b.id in k: raise ValueError
            t = const(c)
            for i in k: t = t * self.at(A(i))
            acc = acc + t
        return acc


def residues(lvl, N, g):
    """sum_{j<N} (g0(m*j) + ... + g0(m*j + m-1))  =  sum_{j<m*N} g0(j)"""
    b = _bound(lvl)
    m = len(g.d)
    if m < 2 or m > 64: return None
    for k, c in g.d.items():
        try: g0 = _Div(b, m)(Poly({k: c}))
        except ValueError: continue
        t = ZERO
        for i in range(m): t = t + Subst({b.id: m * pv(b) + i})(g0)
        if t == g: return N * m, g0
    return None


def canon_poly(S, pc, p):
    """merge residue classes and adjacent ranges of the sums in a linear combination"""
    for _ in range(12):
        sums = [(m, c, A(m[0])) for m, c in p.d.items() if len(m) == 1 and A(m[0]).op == 'sum']
        ch = False
        for m, c, a in sums:
            r = residues(*a.args)
            if r and S.prove(pc, ge(a.args[1])):
                p = p - Poly({m: c}) + c * _l.sum_atom(a.args[0], *r); ch = True; break
        if ch: continue
        for m1, c1, a1 in sums:
            for m2, c2, a2 in sums:
                if a1 is a2 or c1 != c2 or a1.args[0] != a2.args[0]: continue
                b = _bound(a1.args[0])
                if Subst({b.id: pv(b) + a1.args[1]})(a1.args[2]) != a2.args[2]: continue
                if not (S.prove(pc, ge(a1.args[1])) and S.prove(pc, ge(a2.args[1]))): continue
                p = p - Poly({m1: c1, m2: c2}) + c1 * _l.sum_atom(a1.args[0], a1.args[1] + a2.args[1], a1.args[2])
                ch = True; break
            if ch: break
        if not ch: return p
    return p


class Canon(Subst):
    """bottom-up: every polynomial is put in canonical form"""

    def __init__(self, S, pc):
        super().__init__({})
        self.S, self.pc = S, pc

    def poly(self, p):
        acc = ZERO
        for m, c in p.d.items():
            t = const(c)
            for i in m: t = t * self.at(A(i))
            acc = acc + t
        return canon_poly(self.S, self.pc, acc)

    def at(self, a):
        if a.op == 'sum': return pv(a)
        return super().at(a)


# ------------------------------------------------------------------ folds
def parts(F):
    idx, lvl, N, inits, bodies = F.args
    return idx, lvl, N, inits, bodies


def bvs(F):
    """bound variables (accumulators) of the fold"""
    idx, lvl, N, inits, bodies = F.args
    s = set()
    walk_atoms(bodies, s)
    out = {}
    for i in s:
        a = A(i)
        if a.op == 'bv' and a.args[0] == lvl and a.args[1] > 0: out[a.args[1] - 1] = a
    return out


def step(F, state, j):
    """bodies with the accumulators replaced by state (list) and the counter by j"""
    idx, lvl, N, inits, bodies = F.args
    mp = {_bound(lvl).id: j}
    for i, a in bvs(F).items(): mp[a.id] = state[i]
    sb = Subst(mp)
    return wrap(F, [sb(x) for x in bodies])


def wrap(F, xs):
    """integer accumulators are the unsigned representative"""
    b = bvs(F)
    return [pmod(x, 1 << b[i].args[3]) if isinstance(x, Poly) and i in b else x for i, x in enumerate(xs)]


def sym_like(F, i):
    a = bvs(F).get(i)
    if a is None: return None
    s = fresh('acc', a.sort, a.lo, a.hi)
    return pv(s) if a.sort == 'I' else (ba(s) if a.sort == 'B' else s)


def put(F, v):
    if F.sort == 'I': return {F.id: v}
    return {F.id: v[1] if isinstance(v, tuple) else v}


def by_induction(S, pc, goal):
    Fs = [F for F in mentions(goal, 'fold')]
    if not Fs or len(Fs) > 2: return False
    if len(Fs) == 1: return probe_induction(S, pc, goal, Fs[0])
    F1, F2 = Fs
    d = F1.args[2] - F2.args[2]
    if not d.is_const(): return False
    d = d.cval()
    if d < 0: F1, F2, d = F2, F1, -d
    if d > 4: return False
    N = F2.args[2]
    if not S.prove(pc, ge(N)): return False
    i1, i2 = F1.args[0], F2.args[0]
    st1 = wrap(F1, list(F1.args[3]))
    for j in range(d): st1 = step(F1, st1, const(j))
    st2 = wrap(F2, list(F2.args[3]))
    if any(isinstance(x, tuple) for x in st1 + st2): return False

    def G(a, b): return Subst({**put(F1, a), **put(F2, b)})(goal)
    if not prove(S, pc, G(st1[i1], st2[i2])): return False
    n1, n2 = len(st1), len(st2)
    if n1 != n2: return False
    # relation: component-wise equality (same order), which must imply the goal on the selected components
    u = [sym_like(F1, i) for i in range(n1)]
    u = [x if x is not None else (sym_like(F2, i)) for i, x in enumerate(u)]
    if any(x is None for x in u): return False
    if i1 != i2: return False
    if not prove(S, pc, G(u[i1], u[i2])): return False       # equality implies the goal
    for i in range(n1):
        if not same(S, pc, st1[i], st2[i]): return False
    j = fresh('j', 'I', 0, 1 << 62)
    q = PC(pc, ge(N - pv(j) - 1))
    x, y = step(F1, u, pv(j) + d), step(F2, u, pv(j))
    return all(same(S, q, x[i], y[i]) for i in range(n1))


def same(S, pc, a, b):
    if isinstance(a, Poly) and isinstance(b, Poly): return prove(S, pc, eq(a - b))
    if isinstance(a, Atom) and isinstance(b, Atom): return prove(S, pc, feq(a, b))
    return a == b


def prove(S, pc, g): return S.prove(pc, g) or S.prove(pc, g, True)


def probe_induction(S, pc, goal, F):
    """the goal speaks about one element e' of an array the fold runs over: it holds from the iteration that meets e' on"""
    idx, lvl, N, inits, bodies = F.args
    inits = wrap(F, list(inits))
    if len(bodies) != 1 or isinstance(inits[0], tuple): return False
    b = _bound(lvl)
    outer = set()
    g2 = Subst(put(F, fresh_for(F)))(goal)
    walk_atoms(g2, outer)
    sels = [A(i) for i in outer if A(i).op == 'sel']
    s = set()
    walk_atoms(bodies, s)
    ins = [A(i) for i in s if A(i).op == 'sel']
    ts = []
    for a in sels:
        for c in ins:
            if len(a.args) != len(c.args): continue
            d = None
            for x, y in zip(a.args, c.args):
                if isinstance(x, Poly) and isinstance(y, Poly):
                    k = y.d.get((b.id,))
                    if k == 1 and d is None: d = x - (y - pv(b))
                    elif x != y: d = False
                elif x != y: d = False
            if d is not None and d is not False and d not in ts: ts.append(d)
    G = lambda v: Subst(put(F, v))(goal)
    f = sym_like(F, 0)
    if f is None: return False
    # plain invariant
    j = fresh('j', 'I', 0, 1 << 62)
    q = PC(PC(pc, ge(N - pv(j) - 1)), G(f)) if G(f) != T else PC(pc, ge(N - pv(j) - 1))
    pres = prove(S, q, G(step(F, [f], pv(j))[0]))
    if not pres: return False
    if prove(S, pc, G(inits[0])): return True
    for t in ts:
        # the element is met in the fold (iteration t) ...
        hit = prove(S, pc.add(ge(t)).add(ge(N - t - 1)), G(step(F, [f], t)[0]))
        if not hit: continue
        # ... or before it (then the start value must settle it)
        if prove(S, pc.add(ge(-t - 1)), G(inits[0])) and prove(S, pc.add(ge(t)), ge(N - t - 1)): return True
    return False


def fresh_for(F):
    s = fresh('acc', F.sort, F.lo, F.hi)
    return pv(s) if F.sort == 'I' else (ba(s) if F.sort == 'B' else s)


def attempt(S, pc, goal):
    """last resort for a goal (or, for the goal False, for the last assumptions) that speaks about sums or folds"""
    todo = []
    if goal == F:
        n, tail = pc, []
        while n.parent is not None and len(tail) < 6:
            if mentions(n.f, 'fold') or mentions(n.f, 'sum'): todo.append((n.parent, neg(n.f), tail[:]))
            tail.insert(0, n.f)
            n = n.parent
    else: todo.append((pc, goal, []))
    for p, g, tail in todo[:3]:
        for x in tail:
            if not (mentions(x, 'fold') or mentions(x, 'sum')): p = p.add(x)
        for g1 in (g[1] if g[0] == 'and' else (g,)):
            if not _one(S, p, g1): break
        else: return True
    return False


def pinned(S, pc, g):
    """symbols with only one possible value under pc"""
    s = set()
    walk_atoms(g, s)
    mp = {}
    for i in s:
        a = A(i)
        if a.op == 'sym' and a.sort == 'I' and a.lo is not None and a.lo >= 0 and prove(S, pc, ge(a.lo - pv(a))): mp[a.id] = const(a.lo)
    return mp


def quotients(S, pc, g):
    """a div b = 0 and a mod b = a wherever 0 <= a < b under pc"""
    seen = set()
    for _ in range(20):
        s = set()
        walk_atoms(g, s)
        todo = sorted((A(i) for i in s if A(i).op in ('div', 'mod') and i not in seen), key=lambda a: a.id)
        for a in todo:
            seen.add(a.id)
            if mentions(a, 'bv'): continue
            x, y = a.args
            if prove(S, pc, ge(y - x - 1)) and prove(S, pc, ge(x)):
                g = Subst({a.id: ZERO if a.op == 'div' else x})(g)
                break
        else: return g
    return g


def tops(x, out):
    """sums that are not inside another sum or fold"""
    if isinstance(x, Poly):
        for m in x.d:
            for i in m: tops(A(i), out)
    elif isinstance(x, Atom):
        if x.op == 'sum':
            if x not in out: out.append(x)
        elif x.op != 'fold':
            for y in x.args: tops(y, out)
    elif isinstance(x, tuple):
        for y in x: tops(y, out)
    return out


def extensional(S, pc, g, depth=0):
    """sums of equal length and equal summands are equal"""
    if depth > 3: return False
    ss = tops(g, [])
    if len(ss) < 2 or len(ss) > 6: return False
    mp = {}
    for x in range(len(ss)):
        for y in range(x):
            a, c = ss[y], ss[x]
            if a.id in mp or c.id in mp: continue
            if not prove(S, pc, eq(a.args[1] - c.args[1])): continue
            j = fresh('j', 'I', 0, 1 << 62)
            d = Subst({_bound(a.args[0]).id: pv(j)})(a.args[2]) - Subst({_bound(c.args[0]).id: pv(j)})(c.args[2])
            q = PC(PC(pc, ge(a.args[1] - pv(j) - 1)), ge(c.args[1] - pv(j) - 1))
            if not d.d or prove(S, q, eq(d)) or extensional(S, q, eq(d), depth + 1): mp[c.id] = pv(a)
    if not mp: return False
    g = Subst(mp)(g)
    return g == T or prove(S, pc, g)


def _one(S, pc, g):
    if mentions(g, 'sum') or mentions(g, 'fold'):
        g2 = quotients(S, pc, g)
        if g2 is not g:
            g = g2
            if g == T or prove(S, pc, g): return True
    mp = pinned(S, pc, g)
    if mp:
        g = Subst(mp)(g)
        for i, v in mp.items(): pc = pc.add(eq(pv(A(i)) - v))
        if prove(S, pc, g): return True
    if mentions(g, 'sum'):
        g = Canon(S, pc)(g)
        if g == T or prove(S, pc, g): return True
        if extensional(S, pc, g): return True
    if mentions(g, 'fold'): return by_induction(S, pc, g)
    return prove(S, pc, g)
