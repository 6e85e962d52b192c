"""Loop summarisation."""
import os
from sx import *
from sx import Engine as _E


class SliceFail(Exception):
    pass


class NeedPeel(Exception):
    """the first iteration differs (a container allocates its storage): run it on its own"""


def phi_list(f, h):
    return [i for i in f.blocks[h] if i.op == 'phi']


def defs_of(f):
    d = getattr(f, '_defs', None)
    if d is None:
        d = {}
        for b in f.order:
            for i in f.blocks[b]:
                if i.res: d[i.res] = (b, i)
        f._defs = d
    return d


class Form:
    """closed form of a loop-carried value.  kind: inv, aff, lag, sum, fold, unk"""

    def __init__(self, kind, init, ty, **kw):
        self.kind, self.init, self.ty = kind, init, ty
        self.step = kw.get('step')
        self.sym = kw.get('sym')
        self.body = kw.get('body')

    def same(self, o):
        return self.kind == o.kind and self.step == o.step


def level_of(*xs):
    s = set()
    for x in xs: walk_any(x, s)
    return 1 + max([A(i).args[1] if A(i).op == 'fold' else A(i).args[0] for i in s if A(i).op in ('fold', 'sum')], default=0)


def walk_any(x, s):
    if isinstance(x, (Poly, Atom)): walk_atoms(x, s)
    elif isinstance(x, tuple):
        for y in x: walk_any(y, s)
    elif isinstance(x, Ptr): walk_atoms(x.off, s)
    elif isinstance(x, PIte): walk_any(x.c, s); walk_any(x.a, s); walk_any(x.b, s)
    elif isinstance(x, Agg): walk_any(x.e, s)


def sum_atom(lvl, N, g, lo=None, hi=None):
    if N.is_const() and N.cval() <= 0: return ZERO
    b = atom('bv', (lvl, 0), 'I', 0)
    if not _mentions(g, b.id): return N * g
    if N.is_const() and N.cval() <= 256:
        r = ZERO
        for j in range(N.cval()): r = r + Subst({b.id: const(j)})(g)
        return r
    glo, ghi = g.iv()
    # split linear parts that do not mention the bound variable
    inv = Poly({m: c for m, c in g.d.items() if not any(_at_mentions(i, b.id) for i in m)})
    if inv.d:
        return N * inv + sum_atom(lvl, N, g - inv)
    c = 0
    for v in g.d.values(): c = gcd(c, v)
    if c > 1:
        return c * sum_atom(lvl, N, g.divc(c))
    nhi = N.iv()[1]
    return pv(atom('sum', (lvl, N, g), 'I', 0 if glo is not None and glo >= 0 else None, ghi * nhi if ghi is not None and ghi >= 0 and nhi is not None else None))


def _at_mentions(i, b):
    s = set()
    walk_atoms(A(i), s)
    return b in s


def _mentions(g, b):
    s = set()
    walk_atoms(g, s)
    return b in s


def _rb_sum(a, na): return sum_atom(na[0], na[1], na[2])


def _rb_fold(a, na):
    N = na[2]
    if isinstance(N, Poly) and N.is_const() and N.cval() == 0:
        return na[3][na[0]]
    if isinstance(N, Poly) and N.is_const() and 0 < N.cval() <= 3:
        import induct
        f = atom('fold', na, a.sort, a.lo, a.hi)
        x = induct.wrap(f, list(na[3]))
        for j in range(N.cval()): x = induct.step(f, x, const(j))
        x = x[na[0]]
        return x[1] if a.sort == 'B' and isinstance(x, tuple) and x[0] == 'b' else x
    r = atom('fold', na, a.sort, a.lo, a.hi)
    return pv(r) if a.sort == 'I' else r


import terms as _t
_t._rebuild['sum'] = _rb_sum
_t._rebuild['fold'] = _rb_fold


def _ids(x):
    s = set(); walk_any(x, s); return s


class Loops:
    # ---------------------------------------------------------- entry point
    def run_loop(self, f, h, prev, env, st):
        body = f.loops[h]
        phis = phi_list(f, h)
        init = {}
        for ins in phis:
            for v, l in ins.x:
                if l == prev: init[ins.res] = self.operand(st, env, ins.ty, v); break
            else: raise Unsupported('phi init')
        if not self.S.feasible(st.pc): return []
        forms = self.static_forms(f, h, body, phis, init, env, st)
        k = fresh('k', 'I', 0, 1 << 62)
        Ns = self.static_N(f, h, body, phis, forms, env, st, k)
        if Ns is not None and len(Ns) == 1 and Ns[0][1].is_const() and Ns[0][1].cval() <= self.concrete_cap:
            return self.concrete(f, h, body, phis, init, env, st)
        if Ns is None: Ns = self.probe_N(f, h, body, phis, forms, env, st, k)
        if Ns is not None and len(Ns) == 1 and Ns[0][1].is_const() and Ns[0][1].cval() <= self.concrete_cap:
            return self.concrete(f, h, body, phis, init, env, st)
        if Ns is None:
            # no static trip count: concrete execution if every exit test is decided, else try the dynamic route
            mark = len(self.oblig)
            saved = self.spec
            try:
                self.spec = body
                return self.concrete(f, h, body, phis, init, env, st.clone(), spec=True)
            except NeedSummary:
                del self.oblig[mark:]
            finally:
                self.spec = saved
            return self.dynamic(f, h, body, phis, init, forms, env, st, k)
        out = []
        for cond, N in Ns:
            s2 = st.clone().assume(cond)
            if cond != T and not self.S.feasible(s2.pc): continue
            if N.is_const() and N.cval() == 0:
                e2 = dict(env); e2.update(init)
                evs = self.run(f, h, prev, e2, s2, body, h, True)
                out += self._final_events(f, h, evs)
                continue
            out += self.attempts(f, h, body, phis, init, forms, env, s2, k, N)
        return out

    def attempts(self, f, h, body, phis, init, forms, env, st, k, N):
        mark, ls = len(self.oblig), set(self.loops_summarised)
        try:
            return self.summarise(f, h, body, phis, init, forms, env, st.clone(), k, N)
        except NeedPeel: err = None
        except Unsupported as ex: err = ex
        del self.oblig[mark:]
        self.loops_summarised = set(ls)
        if isinstance(err, LoopDep) and err.dep[0] in st.mem:
            # cells that only accumulate: hist[index(k)] += amount(k)
            try: return self.summarise(f, h, body, phis, init, forms, env, st.clone(), k, N, None, {err.dep[0]: err.dep[1:]})
            except (NeedPeel, Unsupported) as ex:
                if os.environ.get('VKL'): print('SCATTER', ex)
            del self.oblig[mark:]
            self.loops_summarised = set(ls)
        if err is not None:
            g = self.guess(f, h, body, phis, init, forms, env, st, k, N)
            if g is not None:
                try:
                    return self.summarise(f, h, body, phis, init, g[0], env, st.clone(), k, N, g[1])
                except (NeedPeel, Unsupported): pass
            del self.oblig[mark:]
            self.loops_summarised = set(ls)
        if self.peeled.get((f.name, h)): raise err or Unsupported('first iterations differ')
        if err is not None and not self.null_start(phis, init, st): raise err
        return self.peel(f, h, body, phis, init, env, st)

    def guess(self, f, h, body, phis, init, forms0, env, st, k, N):
        """closed forms guessed from one concrete iteration (verified by the summary, like every other guess)"""
        mark = len(self.oblig)
        e0 = dict(env); e0.update(init)
        s0 = st.clone()
        s0.pc = s0.pc.add(ge(N - 1))
        if not self.S.feasible(s0.pc): return None
        try: backs = [e for e in self.run(f, h, None, e0, s0, body, h, True) if e[0] == 'back' and self.S.feasible(e[1].pc)]
        except Unsupported: return None
        finally: del self.oblig[mark:]
        if not backs: return None

        def form(i0, nx, ty):
            v = nx[0]
            if any(type(x) is not type(v) or x != v for x in nx): return None
            if type(v) is type(i0) and v == i0: return Form('inv', i0, ty)
            if isinstance(i0, Ptr) and isinstance(v, Ptr) and i0.r == v.r: return Form('aff', i0, ty, step=v.off - i0.off)
            if isinstance(i0, Poly) and isinstance(v, Poly) and ty != I1: return Form('aff', i0, ty, step=norm(v - i0, width(ty)))
            return None
        forms = dict(forms0)
        for p in phis:
            if forms[p.res].kind != 'unk': continue
            nx = [self.operand(e[1], e[2], p.ty, v) for e in backs for v, lb in p.x if lb == e[3]]
            forms[p.res] = form(init[p.res], nx, p.ty) or forms[p.res]
        # cells: fixed addresses written in the first and in the second iteration
        again = set()
        for e in backs[:2]:
            e2 = dict(e[2])
            for p in phis:
                for v, lb in p.x:
                    if lb == e[3]: e2[p.res] = self.operand(e[1], e[2], p.ty, v)
            s2 = e[1].clone()
            s2.pc = s2.pc.add(ge(N - 2))
            try: b2 = [x for x in self.run(f, h, None, e2, s2.clone(), body, h, True) if x[0] == 'back']
            except Unsupported: return None
            finally: del self.oblig[mark:]
            for x in b2:
                for r in st.mem:
                    n = x[1].mem.get(r)
                    while n is not None and n is not e[1].mem.get(r):
                        if n.k == 'W' and n.off.is_const(): again.add((r, n.off, n.size, n.ty))
                        n = n.prev
        memphi = {}
        for e in backs:
            for r, n0 in st.mem.items():
                n = e[1].mem.get(r)
                while n is not None and n is not n0:
                    if n.k == 'W' and n.off.is_const():
                        c = (r, n.off, n.size, n.ty)
                        if c in again and c not in memphi:
                            try:
                                iv = self.cellval(st, r, n.off, n.size, n.ty)
                                nx = [self.cellval(b[1], r, n.off, n.size, n.ty) for b in backs]
                            except Unsupported: return None
                            memphi[c] = form(iv, nx, n.ty) or Form('unk', iv, n.ty)
                    n = n.prev
        cs = list(memphi)
        for i, a in enumerate(cs):
            for b in cs[:i]:
                if a[0] == b[0] and a[1].cval() < b[1].cval() + b[2] and b[1].cval() < a[1].cval() + a[2]: return None
        return forms, memphi

    def null_start(self, phis, init, st):
        return any(isinstance(v, Ptr) and v.r == 0 for v in init.values())

    def peel(self, f, h, body, phis, init, env, st):
        out = []
        e0 = dict(env); e0.update(init)
        self.peeled[f.name, h] = 1
        try:
            for ev in self.run(f, h, None, e0, st, body, h, True):
                if ev[0] != 'back': out.append(ev); continue
                if not self.S.feasible(ev[1].pc): continue
                out += self.run_loop(f, h, ev[3], ev[2], ev[1])
        finally:
            del self.peeled[f.name, h]
        return out

    def _final_events(self, f, h, evs):
        out = []
        for e in evs:
            if e[0] == 'back':
                if self.S.feasible(e[1].pc, True): raise Unsupported(f'trip count mismatch in {f.name}')
                continue
            out.append(e)
        return out

    def concrete(self, f, h, body, phis, init, env, st, spec=False, most=None):
        out = []
        e0 = dict(env); e0.update(init)
        work = [(e0, st, 0)]
        while work:
            e, s, n = work.pop()
            if most is not None:
                most -= 1
                if most < 0: raise NeedSummary()
            if n > self.concrete_cap: raise (NeedSummary() if spec else Unsupported(f'unbounded concrete loop in {f.name}'))
            for ev in self.run(f, h, None, e, s, body, h, True):
                if ev[0] == 'back':
                    e2 = dict(ev[2])
                    new = {}
                    for ins in phis:
                        for v, l in ins.x:
                            if l == ev[3]: new[ins.res] = self.operand(ev[1], ev[2], ins.ty, v); break
                    e2.update(new)
                    work.append((e2, ev[1], n + 1))
                else: out.append(ev)
        return out

    # ---------------------------------------------------------- static guesses (all re-checked later)
    def invariant_op(self, f, body, v):
        if v[0] != 'v': return True
        d = defs_of(f).get(v[1])
        return d is None or d[0] not in body

    def static_forms(self, f, h, body, phis, init, env, st):
        forms = {}
        D = defs_of(f)
        for ins in phis:
            lat = [v for v, l in ins.x if l in body]
            form = None
            if lat and all(v == lat[0] for v in lat):
                v = lat[0]
                if v == ('v', ins.res): form = Form('inv', init[ins.res], ins.ty)
                elif v[0] == 'v' and v[1] in D and D[v[1]][0] in body:
                    step = self._step(f, body, D, ins, v, env, st)
                    if step is not None: form = Form('aff', init[ins.res], ins.ty, step=step)
            if form is None: form = Form('unk', init[ins.res], ins.ty)
            if form.kind == 'aff' and not isinstance(form.init, (Poly, Ptr)): form = Form('unk', init[ins.res], ins.ty)
            forms[ins.res] = form
        return forms

    def _step(self, f, body, D, phi, v, env, st):
        """v = phi + step (through chains of add/gep)"""
        acc = ZERO
        for _ in range(6):
            if v == ('v', phi.res): return acc
            if v[0] != 'v' or v[1] not in D: return None
            b, i = D[v[1]]
            if b not in body: return None
            if i.op == 'bin' and i.x[0] in ('add', 'sub'):
                a, c = i.a
                if self.invariant_op(f, body, c) : inv, v2 = c, a
                elif i.x[0] == 'add' and self.invariant_op(f, body, a): inv, v2 = a, c
                else: return None
                try: s = self.toint(self.operand(st, env, i.ty, inv))
                except (KeyError, Unsupported): return None
                acc = norm(acc + (s if i.x[0] == 'add' else -s), width(i.ty))
                v = v2
            elif i.op == 'gep':
                if not all(self.invariant_op(f, body, o[1]) for o in i.a[1:]): return None
                try: p = self.gep(st, env, i.ty, i.a, Ptr(0, ZERO))
                except (KeyError, Unsupported): return None
                acc = acc + p.off
                v = i.a[0][1]
            else: return None
        return None

    def form_at(self, fm, K):
        """value after K completed iterations"""
        if fm.kind == 'inv': return fm.init
        if fm.kind == 'aff':
            if isinstance(fm.init, Ptr): return Ptr(fm.init.r, fm.init.off + fm.step * K)
            return norm(fm.init + fm.step * K, width(fm.ty))
        if fm.kind == 'sum':
            lvl, g = fm.body
            r = sum_atom(lvl, K, g)
            if isinstance(fm.init, Ptr): return Ptr(fm.init.r, fm.init.off + r)
            return fm.init + r
        if fm.kind == 'lag':
            kk, nx = fm.body
            prevv = Subst({kk.id: K - 1})(nx)
            return self.vite(eq(K), fm.init, prevv)
        if fm.kind == 'fold':
            idx, lvl, inits, bodies, sorts = fm.body
            if K.is_const() and K.cval() == 0: return fm.init
            s = sorts[idx]
            a = atom('fold', (idx, lvl, K, inits, bodies), s[0], s[1], s[2])
            return pv(a) if s[0] == 'I' else (ba(a) if s[0] == 'B' else a)
        if fm.kind == 'unk': return fm.sym
        raise Unsupported('form ' + fm.kind)

    def static_N(self, f, h, body, phis, forms, env, st, k):
        D = defs_of(f)
        exits = [b for b in f.rpo if b in body and f.blocks[b][-1].op == 'br' and len(f.blocks[b][-1].x) == 2
                 and (f.blocks[b][-1].x[0] in body) != (f.blocks[b][-1].x[1] in body)]
        guess = st.clone()
        guess.pc = guess.pc.add(ge((1 << 40) - pv(k)))
        senv = {}
        for p in phis:
            fm = forms[p.res]
            if fm.kind in ('aff', 'inv'): senv[p.res] = self.form_at(fm, pv(k))

        def ev(v, ty, depth=0):
            if v[0] != 'v': return self.operand(guess, {}, ty, v)
            n = v[1]
            if n in senv: return senv[n]
            d = D.get(n)
            if d is None or d[0] not in body: return env[n]
            if depth > 30: raise SliceFail()
            i = d[1]
            if i.op == 'bin': r = self.bin(guess.pc, i.x[0], i.x[1], i.ty, ev(i.a[0], i.ty, depth + 1), ev(i.a[1], i.ty, depth + 1))
            elif i.op == 'icmp':
                a, b = ev(i.a[0], i.ty, depth + 1), ev(i.a[1], i.ty, depth + 1)
                if isinstance(a, (PIte, Undef, Junk)) or isinstance(b, (PIte, Undef, Junk)): raise SliceFail()
                r = self.icmp(guess.pc, i.x, i.ty, a, b)
            elif i.op == 'cast': r = self.cast(guess.pc, i.x[0], i.x[1], i.ty, ev(i.a[0], i.x[1], depth + 1))
            elif i.op == 'gep':
                b = ev(i.a[0][1], i.a[0][0], depth + 1)
                e2 = dict(env)
                for t, o in i.a[1:]:
                    if o[0] == 'v': e2[o[1]] = ev(o, t, depth + 1)
                r = self.gep(guess, e2, i.ty, i.a, b)
            elif i.op == 'select':
                r = self.vite(self.tobool(ev(i.a[0], i.x, depth + 1)), ev(i.a[1], i.ty, depth + 1), ev(i.a[2], i.ty, depth + 1))
            elif i.op == 'freeze': r = ev(i.a[0], i.ty, depth + 1)
            elif i.op == 'load':
                p = ev(i.a[0], PTR, depth + 1)
                if not isinstance(p, Ptr) or p.r == 0: raise SliceFail()
                self._lazy_st = guess
                rs = self.read(guess.pc, guess.mem[p.r], p.off, self.ssize(self.mod.res(i.ty)), self.mod.res(i.ty))
                if len(rs) != 1: raise SliceFail()
                r = rs[0][1]
            elif i.op == 'call' and i.x['callee'][0] == 'g' and i.x['callee'][1].startswith('@llvm.') :
                rs = self.call(guess.clone(), i.x['callee'][1][1:], [ev(a, t, depth + 1) for t, a in i.x['args']], i)
                if len(rs) != 1 or rs[0][0] != 'ret': raise SliceFail()
                r = rs[0][2]
            else: raise SliceFail()
            senv[n] = r
            return r
        for b in exits:
            br = f.blocks[b][-1]
            try:
                c = self.tobool(ev(br.a[0], I1))
            except (SliceFail, Unsupported, KeyError, AttributeError) as e:
                continue
            cont = c if br.x[0] in body else neg(c)
            r = self.solveN(st, cont, k)
            if r is not None: return r
        return None

    def probe_N(self, f, h, body, phis, forms, env, st, k):
        mark = len(self.oblig)
        saved = self.probe
        e2 = dict(env)
        for p in phis:
            fm = forms[p.res]
            e2[p.res] = self.form_at(fm, pv(k)) if fm.kind in ('aff', 'inv') else self.newsym(p.ty, fm.init)
        s2 = st.clone()
        s2.pc = s2.pc.add(ge((1 << 40) - pv(k)))
        self.probe = (body, st, k)
        try:
            self.run(f, h, None, e2, s2, body, h, True)
        except ProbeDone:
            return self.probe[3]
        except Unsupported:
            pass
        finally:
            self.probe = saved
            del self.oblig[mark:]
        return None

    def solveN(self, st, cont, k):
        """number of iterations j=0,1,.. with cont(j) true before the first false.  -> [(case condition, N)]"""
        S = self.S

        def lin(p):
            a = ZERO; b = ZERO
            for m, c in p.d.items():
                n = m.count(k.id)
                if n == 0: b = b + Poly({m: c})
                elif n == 1:
                    mm = list(m); mm.remove(k.id); a = a + Poly({tuple(mm): c})
                else: return None
            s = set()
            walk_atoms(b, s)
            if k.id in s: return None
            return a, b
        if cont == F: return [(T, ZERO)]
        if cont == T: return None
        s = set()
        walk_any(cont, s)
        wrap = {i: A(i).args[0] for i in s if A(i).op == 'modc' and A(i).args[1] >= 1 << 31 and k.id in _ids(A(i).args[0])}
        # a guess that no counter wraps; the iterations up to the guessed count are run with the wrapping counter
        if wrap: return self.solveN(st, Subst(wrap)(cont), k)
        if cont[0] == 'and':
            # minimum over conjuncts: take the one which is affine; others are early exits
            for g in cont[1]:
                r = self.solveN(st, g, k)
                if r is not None: return r
            return None
        if cont[0] == 'ge':
            r = lin(cont[1])
            if r is None: return None
            a, b = r
            if a.is_const() and a.cval() < 0:
                c = -a.cval()
                N = pdivc(b + c, c)
                if S.prove(st.pc, ge(b + c)): return [(T, N)]
                return [(ge(b), N), (ge(-b - 1), ZERO)]
            return None
        if cont[0] == 'not' and cont[1][0] == 'eq':
            r = lin(cont[1][1])
            if r is None: return None
            a, b = r
            if not a.d: return None
            if a.is_const(): q = (-b).divc(a.cval())
            else:
                q, rem = polydivmod(-b, a)
                if rem.d: q = None
            if q is None and a.is_const():
                # stride c does not divide the distance in general: by cases (another exit must end the uneven case)
                num, c = (-b, a.cval()) if a.cval() > 0 else (b, -a.cval())
                if c > 1 and S.prove(st.pc, ge(num)):
                    e = eq(pmod(num, c))
                    return [(e, pdivc(num, c)), (neg(e), pdivc(num, c))]
            if q is None: return None
            if S.prove(st.pc, ge(q)) or S.prove(st.pc, ge(q), True): return [(T, q)]
            return None
        return None

    # ---------------------------------------------------------- summary
    def dynamic(self, f, h, body, phis, init, forms, env, st, k):
        # a few data-dependent iterations (an insertion step of a short sort): follow them all
        obl = len(self.oblig)
        cap, self.concrete_cap = self.concrete_cap, 4
        try: return self.concrete(f, h, body, phis, init, env, st.clone(), spec=True, most=24)
        except (NeedSummary, Unsupported): del self.oblig[obl:]
        finally: self.concrete_cap = cap
        if self.sumdepth: raise Unsupported(f'no trip count for loop {h} in {f.name}')
        return self.havoc(f, h, body, phis, init, env, st)

    def havoc(self, f, h, body, phis, init, env, st):
        """a loop without a trip count, by the frame rule: from an arbitrary state of everything the body changes, one more
        iteration is safe, and the loop leaves in such a state.  Cells written at varying places keep their old value or hold the
        value written (when that is always the same).  Partial correctness: the loop is assumed to end."""
        import terms
        self.approx = True
        self.loops_summarised.add((f.name, h))
        S, written = self.S, {}
        for rnd in range(5):
            obl = len(self.oblig)
            mark = terms._fresh[0]
            sg = st.clone()
            for r, w in written.items():
                if w[0] == 'cells':
                    for (off, size, ty) in w[1]:
                        self._store(sg, Ptr(r, off), ty, size, self.newsym(ty, None))
                    continue
                if w[0] == 'any': sg.mem[r] = base('opaque', 'changed by a loop without trip count', r=fresh('havoc').args[0]); continue
                _, size, ty, val = w
                n = self.regions[r].size
                cnt = n.divc(size) if isinstance(n, Poly) else None
                if cnt is None: raise Unsupported('size of a region written by a loop')
                i = fresh('i', 'I', 0, cnt.iv()[1])
                u = fresh('mix').args[0]
                if val is None:
                    a = atom('fapp', (u + 'v', pv(i)), 'I' if ty[0] == 'i' else 'F', *((0, (1 << ty[1]) - 1) if ty[0] == 'i' else ()))
                    val = pv(a) if ty[0] == 'i' else a
                sg.mem[r] = Node('C', st.mem[r], vars=((i, cnt),), guard=ba(atom('fapp', (u, pv(i)), 'B')), off=size * pv(i), size=size, val=val, ty=ty)
            lp = dict(sg.mem)
            eg = dict(env)
            for p in phis: eg[p.res] = self.newsym(p.ty, init[p.res])
            evs = self.run(f, h, None, eg, sg, body, h, True)
            again = False
            for e in evs:
                if e[0] != 'back': continue
                if e[1].freed != st.freed: raise Unsupported('memory released in a loop without trip count')
                for p in phis:
                    if p.ty[0] != 'ptr' or not isinstance(init[p.res], Ptr): continue
                    v = next(self.operand(e[1], e[2], p.ty, v) for v, lb in p.x if lb == e[3])
                    if not isinstance(v, Ptr) or v.r != init[p.res].r: raise Unsupported('pointer to changing memory in a loop without trip count')
                if any(e[1].ghost.get(q) != st.ghost[q] for q in st.ghost if isinstance(q, tuple) or q in ('file', 'open')): raise Unsupported('string or file changed in a loop without trip count')
                for r in lp:
                    n, ch = e[1].mem[r], []
                    while n is not None and n is not lp[r]: ch.append(n); n = n.prev
                    if n is None: ch = None
                    if ch == []: continue
                    old = written.get(r)
                    w = ('any',)
                    if ch and all(c.k == 'W' and c.off.is_const() for c in ch) and (old is None or old[0] == 'cells'):
                        w = ('cells', (old[1] if old else frozenset()) | {(c.off, c.size, c.ty) for c in ch})
                        os_ = sorted((o.cval(), z) for o, z, t in w[1])
                        if any(a[0] + a[1] > b[0] for a, b in zip(os_, os_[1:])): w = ('any',)
                    elif ch and all(c.k in ('W', 'C') and c.size == ch[0].size and c.ty == ch[0].ty and c.off.divc(c.size) is not None for c in ch) and ch[0].ty[0] in 'if':
                        vals = {c.val for c in ch} if all(c.k == 'W' for c in ch) else set()
                        v = vals.pop() if len(vals) == 1 else None
                        if v is not None and (self.free_in(v, set(), mark) or not isinstance(v, (Poly, Atom))): v = None
                        w = ('mix', ch[0].size, ch[0].ty, v)
                        if old is not None and old != w:
                            w = ('mix', w[1], w[2], None) if old[0] == 'mix' and old[1:3] == w[1:3] else ('any',)
                    if w != old: written[r] = w; again = True
            if not again: return [e for e in evs if e[0] != 'back']
            del self.oblig[obl:]
        raise Unsupported(f'loop without trip count did not stabilise in {f.name} {h}')

    def free_in(self, x, ids, mark):
        s = set()
        walk_any(x, s)
        for i in s:
            if i in ids: return True
            a = A(i)
            if a.op == 'sym' and '#' in a.args[0] and int(a.args[0].rsplit('#', 1)[1]) > mark: return True
        return False

    def cellval(self, st, r, off, size, ty):
        self._lazy_st = st
        rs = self.read(st.pc, st.mem[r], off, size, ty)
        if len(rs) != 1: raise Unsupported('ambiguous loop cell')
        return rs[0][1]

    def newsym(self, ty, init):
        if ty == I1: return ba(fresh('phi', 'B'))
        if ty[0] == 'i': return pv(fresh('phi', 'I', 0, (1 << ty[1]) - 1))
        if ty[0] == 'f': return fresh('phi', 'F')
        if ty[0] == 'ptr' and isinstance(init, Ptr): return Ptr(init.r, pv(fresh('phi', 'I')))
        if ty[0] == 'ptr': return Junk('loop-carried pointer')
        return Junk('loop-carried aggregate')

    def symid(self, v):
        if isinstance(v, Poly): return next(iter(v.d))[0]
        if isinstance(v, Atom): return v.id
        if isinstance(v, tuple): return v[1].id
        if isinstance(v, Ptr): return next(iter(v.off.d))[0]
        return None

    sumdepth = 0

    def summarise(self, *a):
        self.sumdepth += 1
        try: return self._summarise(*a)
        finally: self.sumdepth -= 1

    def _summarise(self, f, h, body, phis, init, forms0, env, st, k, N, memphi0=None, scatter=None):
        scatter = scatter or {}
        S = self.S
        self.loops_summarised.add((f.name, h))
        import terms
        mark = terms._fresh[0]
        forms = dict(forms0)
        memphi = dict(memphi0 or {})            # (r, offpoly, size, ty) -> Form
        ctx = LoopCtx()
        ctx.k, ctx.N, ctx.fn = k, N, f.name
        ctx.entry = dict(st.mem)
        nhi = N.iv()[1]
        k.hi = (nhi - 1) if nhi is not None else (1 << 62)
        if k.hi < 0: k.hi = 0
        base_pc = st.pc.add(ge(N - pv(k) - 1))
        if not S.feasible(base_pc):
            # no iteration at all
            e2 = dict(env); e2.update(init)
            return self._final_events(f, h, self.run(f, h, None, e2, st, body, h, True))
        for rnd in range(12):
            obl_mark = len(self.oblig)
            sg = st.clone()
            sg.pc = base_pc
            ctx.thru = set()
            lp = {}
            for r, n in st.mem.items():
                if r in scatter: lp[r] = base('sym', fresh('acc').args[0], scatter[r][0], scatter[r][1])
                else: lp[r] = Node('LP', n, ctx=ctx, r=r)
            sg.mem = dict(lp)
            for (r, off, size, ty), fm in memphi.items():
                if fm.kind == 'unk': fm.sym = self.newsym(ty, fm.init)
                self._store(sg, Ptr(r, off), ty, size, self.form_at(fm, pv(k)))
            eg = dict(env)
            for p in phis:
                fm = forms[p.res]
                if fm.kind == 'unk': fm.sym = self.newsym(p.ty, fm.init)
                eg[p.res] = self.form_at(fm, pv(k))
            evs = self.run(f, h, None, eg, sg, body, h, True)
            backs, early = [], []
            for e in evs:
                if e[0] == 'back': backs.append(e)
                else: early.append(e)
            for e in backs:
                if any(e[1].ghost.get(q) != st.ghost[q] for q in st.ghost if isinstance(q, tuple)): raise Unsupported('string changed in a loop')
                if any(e[1].ghost.get(q) != st.ghost.get(q) for q in ('file', 'open')): raise Unsupported('file opened or closed in a loop')
            # ---- guards
            paths = []
            for e in backs:
                fs = []
                n = e[1].pc
                while n is not base_pc:
                    if n is None: raise Unsupported('pc chain')
                    fs.append(n.f); n = n.parent
                g = [x for x in reversed(fs) if not S.prove(base_pc, x)]
                paths.append((conj(*g), e))
            if any(p[0] == F for p in paths): paths = [p for p in paths if p[0] != F]
            # ---- next values
            changed = False
            allsyms = {}
            for p in phis:
                if forms[p.res].kind == 'unk': allsyms[p.res] = self.symid(forms[p.res].sym)
            for c, fm in memphi.items():
                if fm.kind == 'unk': allsyms[c] = self.symid(fm.sym)
            symids = set(x for x in allsyms.values() if x is not None)
            nexts = {}
            for p in phis:
                l = []
                for g, e in paths:
                    for v, lb in p.x:
                        if lb == e[3]: l.append((g, self.operand(e[1], e[2], p.ty, v))); break
                nexts[p.res] = l
            for c in memphi:
                l = []
                for g, e in paths:
                    l.append((g, self.cellval(e[1], c[0], c[1], c[2], c[3])))
                nexts[c] = l
            inv_ids = symids | {k.id}
            pend = []
            self.cur_loop = (f.name, h)
            for key, fm in list(forms.items()) + list(memphi.items()):
                nf = self.infer(fm, key, nexts[key], inv_ids, symids, mark, k, base_pc, N)
                if nf is None: pend.append(key); continue
                if nf is not fm:
                    if key in forms: forms[key] = nf
                    else: memphi[key] = nf
                    changed = True
            # ---- memory effects
            eff = {}
            reset = set()
            for g, e in paths:
                for r in lp:
                    if r in scatter: continue
                    ch = []
                    n = e[1].mem[r]
                    while n is not lp[r]:
                        if n.k == 'B':
                            reset.add(r); ch = None; break
                        ch.append(n); n = n.prev
                    if ch: eff.setdefault(r, []).append((g, ch[::-1]))
            newcells = False
            for r, lst in eff.items():
                if r in reset: continue
                allconst = all(n.k == 'W' and not self.free_in(n.off, inv_ids, mark) for g, ch in lst for n in ch)
                for g, ch in lst:
                    for n in ch:
                        if n.k == 'W' and not self.free_in(n.off, inv_ids, mark) and (allconst or n.off.is_const()):
                            c = (r, n.off, n.size, n.ty)
                            if c not in memphi:
                                for o in memphi:
                                    if o[0] == r and o[1].is_const() and n.off.is_const() and o[1].cval() < n.off.cval() + n.size and n.off.cval() < o[1].cval() + o[2]:
                                        raise Unsupported(f'overlapping loop cells in {f.name}')
                                iv = self.cellval(st, r, n.off, n.size, n.ty)
                                memphi[c] = Form('unk', iv, n.ty)
                                newcells = True
            layers = {}
            for r, lst in eff.items():
                if r in reset: continue
                cells = [c for c in memphi if c[0] == r]
                if len(lst) > 1 and sum(len(ch) for g, ch in lst) > 6: lst = self.merge_paths(lst, [p[0] for p in paths], base_pc)
                for g, ch in lst:
                    for n in ch:
                        if n.k == 'W' and any(c[1] == n.off and c[2] == n.size for c in cells): continue
                        if cells and n.k == 'Cp' and n.off.is_const() and n.len.is_const():
                            print('DBG', self.regions[r].name, n, cells) if os.environ.get('VKL') else None; raise Unsupported('block copy over loop cells')
                        layers.setdefault(r, []).append((g, n))
            again = changed or newcells
            if os.environ.get('VKL'): print('ROUND', rnd, f.name[-30:], h, {q: (m.kind, repr(m.step)[:60], repr(m.body)[:200], [repr(v)[:400] for g, v in nexts.get(q, [])]) for q, m in list(forms.items()) + list(memphi.items()) if m.kind not in ('inv',)})
            if not again and pend and not getattr(ctx, 'folded', False):
                # everything else is settled: turn the remaining ones into folds
                self.make_folds(pend, forms, memphi, nexts, allsyms, k, base_pc, N)
            if not again:
                for r in ctx.thru:
                    new = [n for g, n in layers.get(r, [])]
                    if [repr(x) for x in new] != [repr(x) for x in ctx.written.get(r, [])]:
                        again = True
                    
            if again:
                for r in layers: ctx.written[r] = [n for g, n in layers[r]]
                del self.oblig[obl_mark:]
                continue
            break
        else:
            raise Unsupported(f'loop summary did not stabilise in {f.name} {h}')
        # ---- substitution of accumulator symbols by their closed forms at iteration k
        smap = {}
        for key, fm in list(forms.items()) + list(memphi.items()):
            if fm.kind in ('fold', 'sum', 'lag') and fm.sym is not None:
                i = self.symid(fm.sym)
                if i is None: continue
                v = self.form_at(fm, pv(k))
                if isinstance(fm.sym, Ptr): v = v.off if isinstance(v, Ptr) else v
                if isinstance(fm.sym, tuple): v = v
                smap[i] = v
        sub = Subst(smap) if smap else None

        acc = {r: self.accumulated(r, lp[r], paths, k, base_pc, symids) for r in scatter}
        if scatter:
            used = set()
            for g, e in paths: walk_any(g, used)
            for fm in list(forms.values()) + list(memphi.values()):
                for x in (fm.step, fm.body): walk_any(x, used)
            names = {lp[r].name for r in scatter}
            if any(A(i).op == 'sel' and A(i).args[0] in names for i in used): raise Unsupported('accumulated cells are also read')
            for ls in layers.values():
                for g, n in ls:
                    if self.reads_name(n, names, lp): raise Unsupported('accumulated cells are copied')

        def build(limit):
            """memory after `limit` iterations, as dict region->node"""
            k2 = fresh('i', 'I', 0, k.hi)
            ks = Subst({k.id: pv(k2)})
            mem = dict(st.mem)
            for r, (e, delta) in acc.items():
                es, ty = scatter[r]
                size = self.regions[r].size
                cnt = size.divc(es) if isinstance(size, Poly) else None
                if cnt is None: raise Unsupported('size of accumulated cells')
                i = fresh('i', 'I', 0, cnt.iv()[1])
                pc0 = st.pc.add(ge(cnt - pv(i) - 1))
                v0 = None
                for q, v in self.read(pc0, st.mem[r], es * pv(i), es, ty):
                    if not isinstance(v, Poly): raise Unsupported('initial accumulated cells')
                    fs = []
                    while q is not pc0: fs.append(q.f); q = q.parent
                    v0 = v if v0 is None else ite(conj(*fs), v, v0)
                lvl = level_of(delta)
                b = atom('bv', (lvl, 0), 'I', 0)
                tot = sum_atom(lvl, limit, Subst({k.id: pv(b), e.id: pv(i)})(delta))
                mem[r] = Node('C', base('undef', r=r), vars=((i, cnt),), guard=T, off=es * pv(i), size=es, val=norm(v0 + tot, width(ty)), ty=ty)
            for r, ls in layers.items():
                n = mem[r]
                if r in grouped:
                    es = []
                    for pos, (g, w) in enumerate(ls):
                        for m in (w.es if w.k == 'G' else (w,)):
                            if m.k not in ('W', 'C'): es = None; break
                            key = getattr(m, 'key', ())
                            m = self._as_set(m)
                            if sub: m = self.subst_node(m, sub)
                            ren = {a.id: pv(fresh('i', 'I', 0, a.hi)) for a, _ in m.vars}
                            full = Subst({**ren, k.id: pv(k2)})
                            vs = tuple((A(next(iter(ren[a.id].d))[0]), full(M)) for a, M in m.vars) + ((k2, limit),)
                            nn = Node('C', None, vars=vs, guard=full(conj(sub(g) if sub else g, m.guard)), off=full(m.off), size=m.size, val=full(m.val), ty=m.ty)
                            nn.key = (pv(k2), pos) + tuple(full(sub(x) if sub else x) if isinstance(x, Poly) else x for x in key)
                            es.append(nn)
                        if es is None: break
                    # block copies over each other: the contents after the loop are left unknown
                    mem[r] = Node('G', n, es=es) if es is not None else base('opaque', 'overlapping block copies', r=fresh('havoc').args[0])
                    continue
                for g, w in ls:
                    w2 = w
                    if sub: w2 = self.subst_node(w2, sub); g2 = sub(g)
                    else: g2 = g
                    ren = {}
                    if w2.k in ('C', 'CC'):
                        ren = {a.id: pv(fresh('i', 'I', 0, a.hi)) for a, _ in w2.vars}
                    full = Subst({**ren, k.id: pv(k2)})
                    vs = tuple((A(next(iter(ren[a.id].d))[0]), full(M)) for a, M in w2.vars) if w2.k in ('C', 'CC') else ()
                    vs = vs + ((k2, limit),)
                    gg = full(conj(g2, w2.guard)) if w2.k in ('C', 'CC') else full(g2)
                    if w2.k in ('W', 'C'):
                        n = Node('C', n, vars=vs, guard=gg, off=full(w2.off), size=w2.size, val=full(w2.val), ty=w2.ty)
                    elif w2.k in ('Cp', 'CC'):
                        src = self.strip(w2.src, ctx, layers, st) if w2.src is not None else None
                        if src is not None and self.node_mentions(src, k): print('DBG', self.regions[r].name, w2, src.dump()) if os.environ.get('VKL') else None; raise Unsupported('copy of iteration-dependent contents')
                        n = Node('CC', n, vars=vs, guard=gg, off=full(w2.off), len=full(w2.len), src=src, soff=full(w2.soff) if w2.soff is not None else None)
                    elif w2.k == 'Fl':
                        if not (w2.val.is_const() and w2.val.cval() == 0): raise Unsupported('fill in loop')
                        n = Node('CC', n, vars=vs, guard=gg, off=full(w2.off), len=full(w2.len), src=None, soff=None)
                    else: raise Unsupported('loop effect ' + w2.k)
                mem[r] = n
            for r in reset:
                mem[r] = base('undef', r=r)
            return mem
        grouped = set()
        for r, ls in layers.items():
            if any(w.k == 'G' for g, w in ls) or not self.check_cross(f, r, ls, k, N, base_pc, sub): grouped.add(r)
        # ---- normal exit
        sN = st.clone()
        sN.mem = build(N)
        for (r, off, size, ty), fm in memphi.items():
            if r in reset: continue
            v = self.exit_val(fm, N, st)
            self._store(sN, Ptr(r, off), ty, size, v)
        eN = dict(env)
        for p in phis: eN[p.res] = self.exit_val(forms[p.res], N, st)
        # regions allocated inside the loop are dead unless still referenced
        neg_early = [x for x in early if S.feasible(x[1].pc, True)]
        if scatter and neg_early: raise Unsupported('early exit from an accumulating loop')
        if neg_early:
            gs = []
            for e in neg_early:
                fs = []
                n = e[1].pc
                while n is not base_pc: fs.append(n.f); n = n.parent
                gs.append(conj(*[x for x in reversed(fs) if not S.prove(base_pc, x)]))
            notexit = neg(disj(*gs))
            if sub: notexit = sub(notexit)
            sN.forall = sN.forall + ((((k, N),), notexit),)
            if notexit == F: sN.assume(ge(-1 * N))     # every iteration leaves early: none was completed
        # facts of inner loops that ran to their end hold for every iteration that took that path
        inner = []
        base_forall = len(st.forall)
        for g, e in paths:
            for vs, q in e[1].forall[base_forall:]:
                q = disj(neg(g), q)
                vs2 = vs
                if sub:
                    q = sub(q); vs2 = tuple((a, sub(M)) for a, M in vs)
                s = set()
                walk_any(q, s)
                for a, M in vs2: walk_any(M, s)
                own = {k.id} | {a.id for a, _ in vs}
                if k.id not in s or any(i > k.id and i not in own and A(i).op == 'sym' and '#' in A(i).args[0] for i in s): continue
                inner.append((vs2, q))
        for vs, q in inner[:16]: sN.forall = sN.forall + ((((k, N),) + vs, q),)
        out = self._final_events(f, h, self.run(f, h, None, eN, sN, body, h, True))
        # ---- early exits at iteration k
        for e in neg_early:
            se = e[1]
            memk = build(pv(k))
            for r in list(se.mem):
                n = se.mem[r]
                ch = []
                while n is not None and n is not lp.get(r): ch.append(n); n = n.prev
                if n is None: continue
                m = memk[r]
                for c in reversed(ch):
                    if sub: c = self.subst_node(c, sub)
                    m = c.copy_on(m)
                    if c.k in ('Cp', 'CC') and c.src is not None: m.src = self.strip(c.src, ctx, layers, st)
                se.mem[r] = m
            se.forall = se.forall + ((((k, pv(k)),), notexit),) + tuple((((k, pv(k)),) + vs, q) for vs, q in inner[:16])
            env2 = e[2] if e[0] == 'edge' else None
            if sub:
                npc = base_pc
                fs = []
                n = se.pc
                while n is not base_pc: fs.append(n.f); n = n.parent
                for x in reversed(fs): npc = npc.add(sub(x))
                se.pc = npc
                if env2 is not None: env2 = {a: sub(b) for a, b in env2.items()}
            if e[0] == 'edge': out.append(('edge', se, env2, e[3], e[4]))
            elif e[0] == 'ret': out.append(('ret', se, sub(e[2]) if sub and e[2] is not None else e[2]))
            else: out.append(e)
        return out

    def accumulated(self, r, node, paths, k, base_pc, symids):
        """the amount iteration k adds to the cell with index e, for an arbitrary e"""
        es, ty = node.es, node.ty
        if ty[0] != 'i': raise Unsupported('accumulation of ' + str(ty))
        size = self.regions[r].size
        e = fresh('e', 'I', 0, size.iv()[1] // es if isinstance(size, Poly) and size.iv()[1] is not None else None)
        cell = atom('sel', (node.name, pv(e)), 'I', 0, (1 << (8 * es)) - 1)
        pc = base_pc.add(ge(size.divc(es) - pv(e) - 1))
        delta = ZERO
        for g, ev in paths:
            q = pc if g == T else pc.add(g)
            self._lazy_st = ev[1]
            for q2, v in self.read(q, ev[1].mem[r], es * pv(e), es, ty):
                if not self.S.feasible(q2): continue
                if not isinstance(v, Poly): raise Unsupported('accumulated value')
                s = set(); walk_any(v, s)
                for i in s:
                    a = A(i)
                    if a.op == 'sel' and a.args[0] == node.name and a is not cell:
                        if not self.S.prove(q2, eq(a.args[1] - pv(e))): raise Unsupported('cell depends on other cells')
                        v = Subst({i: pv(cell)})(v)
                d = norm(v - pv(cell), width(ty))
                fs = []
                n = q2
                while n is not pc: fs.append(n.f); n = n.parent
                gd = conj(*[x for x in reversed(fs) if not self.S.prove(pc, x)])
                if d.d: delta = delta + (d if gd == T else ite(gd, d, ZERO))
        s = set(); walk_any(delta, s)
        if any(i in symids or A(i).op == 'sel' and A(i).args[0] == node.name for i in s): raise Unsupported('accumulated amount depends on the cells')
        return e, delta

    def reads_name(self, n, names, lp):
        todo, seen, s = [n], set(), set()
        while todo:
            n = todo.pop()
            if n is None or id(n) in seen or n.k == 'LP': continue
            seen.add(id(n))
            if n.k == 'B' and n.name in names: return True
            for x in ('off', 'len', 'val', 'soff', 'guard'):
                v = getattr(n, x, None)
                if v is not None and not isinstance(v, str): walk_any(v, s)
            if n.k == 'B' or getattr(n, 'src', None) is None: pass
            else: todo.append(n.src)
            if n.prev is not None: todo.append(n.prev)
            todo += list(getattr(n, 'es', None) or ()) if n.k == 'G' else []
        return any(A(i).op == 'sel' and A(i).args[0] in names for i in s)

    def exit_val(self, fm, N, st):
        v = self.form_at(fm, N)
        return v

    def node_mentions(self, n, k):
        s = set()
        seen = set()
        todo = [n]
        while todo:
            n = todo.pop()
            if n is None or id(n) in seen: continue
            seen.add(id(n))
            for x in ('off', 'len', 'val', 'soff', 'guard'):
                v = getattr(n, x, None)
                if v is not None and not isinstance(v, str): walk_any(v, s)
            for v, M in getattr(n, 'vars', None) or (): walk_any(M, s)
            todo.append(n.prev)
            if getattr(n, 'src', None) is not None: todo.append(n.src)
            if n.k == 'G':
                for e in n.es: todo.append(e)
        return k.id in s

    def strip(self, node, ctx, layers, st):
        ch = []
        n = node
        while n is not None and not (n.k == 'LP' and n.ctx is ctx): ch.append(n); n = n.prev
        if n is None:
            # nested snapshots
            if any(c.k in ('Cp', 'CC') and c.src is not None and self._has_lp(c.src, ctx) for c in ch):
                m = None
                for c in reversed(ch):
                    m2 = c.copy_on(m)
                    if c.k in ('Cp', 'CC') and c.src is not None: m2.src = self.strip(c.src, ctx, layers, st)
                    m = m2
                return m
            return node
        if n.r in layers: raise Unsupported('copy from memory written in the same loop')
        m = st.mem[n.r]
        for c in reversed(ch):
            m2 = c.copy_on(m)
            if c.k in ('Cp', 'CC') and c.src is not None: m2.src = self.strip(c.src, ctx, layers, st)
            m = m2
        return m

    def _has_lp(self, n, ctx):
        while n is not None:
            if n.k == 'LP' and n.ctx is ctx: return True
            if n.k in ('Cp', 'CC') and n.src is not None and self._has_lp(n.src, ctx): return True
            n = n.prev
        return False

    def infer(self, fm, key, nexts, inv_ids, symids, mark, k, pc, N):
        """refined Form, fm itself if consistent, None if still unresolved"""
        S = self.S
        if not nexts: return fm
        if fm.kind in ('aff', 'inv'):
            want = self.form_at(fm, pv(k) + 1)
            for g, v in nexts:
                if not self.same_val(pc.add(g), v, want, fm.ty): return Form('unk', fm.init, fm.ty)
            return fm
        if fm.kind == 'unk':
            sym = fm.sym
            if isinstance(sym, Junk):
                if all(v == fm.init for g, v in nexts): return Form('inv', fm.init, fm.ty)
                if isinstance(fm.init, (Undef, Junk)) or True:
                    if all(v == nexts[0][1] for g, v in nexts) and not self.free_in(nexts[0][1], symids, mark) and not isinstance(nexts[0][1], (Junk,)):
                        return Form('lag', fm.init, fm.ty, body=(k, nexts[0][1]))
                    return Form('lag', Junk('scratch'), fm.ty, body=(k, Junk('scratch')))
            if all(v == sym for g, v in nexts): return Form('inv', fm.init, fm.ty)
            if isinstance(fm.init, (Poly, Ptr)) and not isinstance(fm.init, tuple) and fm.ty != I1:
                diffs = []
                for g, v in nexts:
                    if isinstance(sym, Ptr):
                        if not isinstance(v, Ptr) or v.r != sym.r: diffs = None; break
                        diffs.append((g, v.off - sym.off))
                    else:
                        if not isinstance(v, Poly): diffs = None; break
                        diffs.append((g, norm(v - sym, width(fm.ty))))
                if diffs:
                    d0 = diffs[0][1]
                    if all(d == d0 for g, d in diffs) and not self.free_in(d0, inv_ids, mark):
                        return Form('aff', fm.init, fm.ty, step=d0)
                    if not any(self.free_in(d, symids, 1 << 60) or (len(diffs) > 1 and self.free_in(g, symids, 1 << 60)) for g, d in diffs):
                        gd = diffs[-1][1]
                        for g, d in reversed(diffs[:-1]): gd = ite(g, d, gd)
                        lvl = level_of(gd)
                        b = atom('bv', (lvl, 0), 'I', 0)
                        return Form('sum', fm.init, fm.ty, body=(lvl, Subst({k.id: pv(b)})(gd)), sym=sym)
            # independent of loop-carried symbols: lagged value
            if not any(self.free_in(v, symids, 1 << 60) for g, v in nexts) and not any(isinstance(v, (Junk, Undef)) for g, v in nexts):
                if len(nexts) == 1:
                    return Form('lag', fm.init, fm.ty, body=(k, nexts[0][1]), sym=sym)
            if any(isinstance(v, (Undef,)) for g, v in nexts) and all(isinstance(v, Undef) or v == sym for g, v in nexts):
                return Form('inv', Undef(fm.ty), fm.ty)
            if isinstance(sym, Ptr):
                if not self.peeled.get(self.cur_loop) and any(isinstance(v, Ptr) and v.r != sym.r for g, v in nexts): raise NeedPeel()
                return Form('lag', Junk('scratch pointer'), fm.ty, body=(k, Junk('scratch pointer')))
            return None
        if fm.kind == 'sum':
            lvl, g = fm.body
            gk = Subst({atom('bv', (lvl, 0), 'I', 0).id: pv(k)})(g)
            cur = self.form_at(fm, pv(k))
            if isinstance(cur, Poly) and all(isinstance(v, Poly) for _, v in nexts):
                # derived from the same cases once more
                w = width(fm.ty)
                gd = norm(nexts[-1][1] - cur, w)
                for q, v in reversed(nexts[:-1]): gd = ite(q, norm(v - cur, w), gd)
                if Subst({k.id: pv(atom('bv', (lvl, 0), 'I', 0))})(gd) == g: return fm
            for gd, v in nexts:
                want = Ptr(cur.r, cur.off + gk) if isinstance(cur, Ptr) else cur + gk
                if not self.same_val(pc.add(gd), v, want, fm.ty): return Form('unk', fm.init, fm.ty)
            return fm
        if fm.kind == 'lag':
            if isinstance(fm.body[1], Junk): return fm
            for gd, v in nexts:
                if not self.same_val(pc.add(gd), v, fm.body[1], fm.ty) and not (type(v) is type(fm.body[1]) and v == fm.body[1]): return Form('unk', fm.init, fm.ty)
            return fm
        return fm

    def same_val(self, pc, a, b, ty):
        if type(a) is type(b) and a == b: return True
        if isinstance(a, Undef) or isinstance(b, Undef): return False
        if isinstance(a, Poly) and isinstance(b, Poly):
            d = norm(a - b, width(ty))
            return not d.d or self.S.prove(pc, eq(d))
        if isinstance(a, Ptr) and isinstance(b, Ptr): return a.r == b.r and (a.off == b.off or self.S.prove(pc, eq(a.off - b.off)))
        return False

    def make_folds(self, pend, forms, memphi, nexts, allsyms, k, pc, N):
        def fm_of(key): return forms[key] if key in forms else memphi[key]
        vals = {}
        for key in pend:
            l = nexts[key]
            v = l[-1][1]
            for g, x in reversed(l[:-1]): v = self.vite(g, x, v)
            if isinstance(v, (Ptr, PIte, Agg, Junk, Undef)): raise Unsupported(f'accumulator {key} of unsupported kind {v!r}')
            vals[key] = v
        dep = {}
        for key in pend:
            s = set(); walk_any(vals[key], s)
            dep[key] = [q for q in pend if allsyms[q] in s]
        for key in pend:
            grp = [key]
            for q in grp:
                for w in dep[q]:
                    if w not in grp: grp.append(w)
            lvl = level_of(*[vals[q] for q in grp])
            mp = {k.id: pv(atom('bv', (lvl, 0), 'I', 0))}
            sorts = []
            for i, q in enumerate(grp):
                sy = fm_of(q).sym
                ty = fm_of(q).ty
                if isinstance(sy, Poly):
                    w = width(ty)
                    mp[allsyms[q]] = pv(atom('bv', (lvl, i + 1, 'I', w), 'I', 0, (1 << w) - 1)); sorts.append(('I', 0, (1 << w) - 1))
                elif isinstance(sy, tuple):
                    mp[allsyms[q]] = atom('bv', (lvl, i + 1, 'B'), 'B'); sorts.append(('B', None, None))
                else:
                    mp[allsyms[q]] = atom('bv', (lvl, i + 1, 'F'), 'F'); sorts.append(('F', None, None))
            sb = Subst(mp)
            bodies = tuple(sb(vals[q]) for q in grp)
            inits = tuple(fm_of(q).init for q in grp)
            if any(isinstance(x, (Undef, Junk)) for x in inits): raise Unsupported('accumulator with undefined start')
            fm = fm_of(key)
            nf = Form('fold', fm.init, fm.ty, body=(0, lvl, inits, bodies, sorts), sym=fm.sym)
            if key in forms: forms[key] = nf
            else: memphi[key] = nf

    def check_cross(self, f, r, ls, k, N, base_pc, sub):
        """writes of different iterations through different statements never overlap"""
        nodes = [n for g, n in ls]

        def foot(n):
            """the addresses the node can write, with its bound variables in a standard naming"""
            vs = n.vars if n.k in ('C', 'CC') else ()
            mp = Subst({u.id: pv(atom('bv', (900 + i, 0), 'I', 0, u.hi)) for i, (u, _) in enumerate(vs)})
            return (n.k, mp(n.off), n.size if n.k in ('W', 'C') else mp(n.len), tuple(mp(M) for _, M in vs))
        done = {}
        for a in range(len(nodes)):
            for b in range(a + 1, len(nodes)):
                x, y = nodes[a], nodes[b]
                fx, fy = foot(x), foot(y)
                if fx == fy and x.k in ('W', 'C'): continue
                if (fx, fy) not in done:
                    # guards left out first: the answer then serves every pair of nodes with these addresses
                    done[(fx, fy)] = done[(fy, fx)] = len(nodes) > 3 and self.cross(x, y, k, N, base_pc, False)
                if done[(fx, fy)]: continue
                if not self.cross(x, y, k, N, base_pc, True): return False
        return True

    def merge_paths(self, lst, guards, pc):
        """the writes that every path through the body makes first, as one write with the values by case"""
        def foot(n):
            vs = n.vars if n.k == 'C' else ()
            mp = Subst({u.id: pv(atom('bv', (900 + i, 0), 'I', 0, u.hi)) for i, (u, _) in enumerate(vs)})
            return (n.k, mp(n.off), n.size, n.ty, tuple(mp(M) for _, M in vs)), mp
        common = []
        gs = [g for g, ch in lst]
        whole = disj(*gs)
        if len(gs) == len(guards) or self.S.prove(pc, whole): whole = T
        i = 0
        while all(len(ch) > i and ch[i].k in ('W', 'C') for g, ch in lst):
            fs = [foot(ch[i]) for g, ch in lst]
            if any(f[0] != fs[0][0] for f in fs): break
            if len({ch[i] for g, ch in lst}) > 1 and any(hasattr(ch[i], 'key') for g, ch in lst): break
            n0 = lst[0][1][i]
            if n0.k == 'C':
                if any((f[1](ch[i].val), f[1](ch[i].guard)) != (fs[0][1](n0.val), fs[0][1](n0.guard)) for f, (g, ch) in zip(fs, lst)): break
                v = n0.val
            else:
                vals = [ch[i].val for g, ch in lst]
                if all(isinstance(x, Poly) for x in vals): mk = ite
                elif all(isinstance(x, Atom) and x.sort == 'F' for x in vals): mk = fite
                elif all(x == vals[0] for x in vals): mk = lambda c, a, b: b
                else: break
                v = vals[-1]
                for x, g in reversed(list(zip(vals[:-1], gs[:-1]))): v = mk(g, x, v)
            m = n0.copy_on(n0.prev)
            m.val = v
            common.append(m)
            i += 1
        if not common: return lst
        return [(whole, common)] + [(g, ch[i:]) for g, ch in lst if ch[i:]]

    def cross(self, x, y, k, N, base_pc, guards):
        j1, j2 = fresh('j', 'I', 0, k.hi), fresh('j', 'I', 0, k.hi)
        s1, s2 = Subst({k.id: pv(j1)}), Subst({k.id: pv(j2)})
        X, Y = self._as_set(self.subst_node(x, s1)), self._as_set(self.subst_node(y, s2))
        if not guards:
            X = X.copy_on(X.prev)
            X.guard = T
        ren = {u.id: pv(fresh('u', 'I', 0, u.hi)) for u, _ in Y.vars}
        Y = self.subst_node(Y, Subst(ren))
        q = base_pc.add(ge(N - pv(j1) - 1)).add(ge(N - pv(j2) - 1))
        for u, M in Y.vars: q = q.add(ge(M - ren[u.id] - 1))
        ylen = const(Y.size) if Y.k == 'C' else Y.len
        for order in (ge(pv(j1) - pv(j2) - 1), ge(pv(j2) - pv(j1) - 1)):
            if not self.disjoint_len(q.add(order), X, Y.off, ylen): return False
        return True

    def _as_set(self, m):
        if m.k in ('C', 'CC'): return m
        if m.k == 'W': return Node('C', None, vars=(), guard=T, off=m.off, size=m.size, val=m.val, ty=m.ty)
        return Node('CC', None, vars=(), guard=T, off=m.off, len=m.len, src=None, soff=None)

    def disjoint_len(self, pc, n, off, ln):
        mp = {a.id: pv(fresh('u', 'I', 0, a.hi)) for a, N in n.vars}
        sub = Subst(mp)
        q = pc
        for a, N in n.vars: q = q.add(ge(sub(N) - mp[a.id] - 1))
        l = const(n.size) if n.k == 'C' else sub(n.len)
        d = off - sub(n.off)
        q = q.add(ge(d + ln - 1)).add(ge(l - d - 1))
        return self.S.prove(q, F, False) or self.S.prove(q, F, True)


for _n, _v in list(Loops.__dict__.items()):
    if not _n.startswith('__'): setattr(_E, _n, _v)
