"""Equality of floating-point terms as real numbers: machine arithmetic treated as mathematical (reported as an assumption).
A term becomes a quotient of polynomials over its non-arithmetic subterms; quotients are compared by cross-multiplication."""
from terms import *
from fractions import Fraction
import re

_OP = re.compile(r'(fadd|fsub|fmul|fdiv|fneg)(?:_\w+)?$')


def ratom(a): return pv(atom('real', (a,), 'I'))


class Split(Exception):
    def __init__(self, c): self.c = c


def rat(a, memo):
    """(num, den) polynomials with integer coefficients"""
    r = memo.get(a.id)
    if r is not None: return r
    r = _rat(a, memo)
    memo[a.id] = r
    return r


def _rat(a, memo):
    one = const(1)
    if a.op == 'fconst':
        v = fpy(a)
        if a.args[0].startswith('0xK'):
            e, m = int(a.args[0][3:7], 16), int(a.args[0][7:], 16)
            if e & 0x7fff != 0x7fff:
                f = Fraction(m) * Fraction(2) ** ((e & 0x7fff or 1) - 16383 - 63) * (-1 if e >> 15 else 1)
                return const(f.numerator), const(f.denominator)
        if v is None or v != v or v in (float('inf'), float('-inf')): return ratom(a), one
        f = Fraction(v).limit_denominator(10 ** 9) if abs(Fraction(v).limit_denominator(10 ** 9) - Fraction(v)) < Fraction(1, 10 ** 25) else Fraction(v)
        return const(f.numerator), const(f.denominator)
    if a.op == 'fite' and infinite(a.args[0]): return rat(a.args[2], memo)
    if a.op == 'fite':
        x, y = rat(a.args[1], memo), rat(a.args[2], memo)
        if not squares(x[0] * y[1] - y[0] * x[1]).d: return x
        raise Split(a.args[0])
    if a.op == 'ratio': return a.args
    if a.op == 'fold' and a.sort == 'F':
        # sums of equal reals from equal reals are equal: normalise the start values and the step
        try:
            r = real_sum(a, memo)
            if r is not None: return r
            nf = lambda q: atom('ratio', rat(q, memo), 'F') if isinstance(q, Atom) and q.sort == 'F' else q
            return ratom(atom('fold', (a.args[0], a.args[1], a.args[2], tuple(nf(q) for q in a.args[3]), tuple(nf(q) for q in a.args[4])), 'F')), one
        except Split: return ratom(a), one
    if a.op == 'fapp':
        op = a.args[0]
        m = _OP.match(op)
        if m:
            x = rat(a.args[1], memo)
            if m.group(1) == 'fneg': return -x[0], x[1]
            y = rat(a.args[2], memo)
            k = m.group(1)
            if k == 'fmul': return x[0] * y[0], x[1] * y[1]
            if k == 'fdiv': return x[0] * y[1], x[1] * y[0]
            s = 1 if k == 'fadd' else -1
            if x[1] == y[1]: return x[0] + s * y[0], x[1]
            return x[0] * y[1] + s * (y[0] * x[1]), x[1] * y[1]
        if op.startswith('itofp_'): return a.args[1], one
        if op.startswith('dy_'): return a.args[1], const(1 << a.args[2])
        if op.startswith(('fpext', 'fptrunc')): return rat(a.args[1], memo)
        m = re.match(r'llvm\.(fmuladd|fma)\.', op)
        if m:
            x, y, z = (rat(q, memo) for q in a.args[1:4])
            return x[0] * y[0] * z[1] + z[0] * x[1] * y[1], x[1] * y[1] * z[1]
        if op.startswith(('llvm.', 'm_')) and all(isinstance(q, Atom) and q.sort == 'F' for q in a.args[1:]):
            # a function of equal reals is the same real
            xs = [rat(q, memo) for q in a.args[1:]]
            fn = re.sub(r'^(llvm\.|m_)(\w+?)l?(\..*)?$', r'\2', op)
            if fn == 'fabs' and len(xs[0][0].d) == 1 and xs[0][1] == one:
                (mm, cc), = xs[0][0].d.items()
                if cc > 0 and all(A(i).op == 'real' and A(i).args[0] == 'sqrt' for i in mm): return xs[0]
            return pv(atom('real', (re.sub(r'^(llvm\.|m_)(\w+?)l?(\..*)?$', r'\2', op),) + tuple(y for x in xs for y in x), 'I')), one
    return ratom(a), one


def sum_over(lvl, N, h, den):
    """the real sum over i < N of h(i) / den(i)"""
    acc = ratom(atom('bv', (lvl, 1, 'F'), 'F'))
    zero = atom('ratio', (ZERO, const(1)), 'F')
    return ratom(atom('fold', (0, lvl, N, (zero,), (atom('ratio', (acc * den + h, den), 'F'),)), 'F'))


def real_sum(a, memo):
    """a fold that adds a term free of every accumulator: its start value plus the sum of the terms"""
    k, lvl, N, inits, bodies = a.args
    acc = atom('bv', (lvl, k + 1, 'F'), 'F')
    num, den = rat(bodies[k], memo)
    h = num - ratom(acc) * den
    s = set()
    walk_atoms(h, s); walk_atoms(den, s)
    if any(A(i).op == 'bv' and A(i).args[0] == lvl and A(i).args[1] != 0 for i in s): return None
    n0, d0 = rat(inits[k], memo)
    # c terms at a time, then the rest one by one: the plain sum
    b = atom('bv', (lvl, 0), 'I', 0)
    for m, v in n0.d.items():
        if len(m) != 1 or d0 != const(v): continue
        f = A(m[0])
        f = f.args[0] if f.op == 'real' and isinstance(f.args[0], Atom) else None
        if f is None or f.op != 'fold' or f.args[3][0].args != (ZERO, const(1)): continue
        q, (bn, bd) = f.args[2], f.args[4][0].args
        hq = Subst({atom('bv', (f.args[1], 0), 'I', 0).id: pv(b)})(bn - ratom(atom('bv', (f.args[1], 1, 'F'), 'F')) * bd)
        if bd != den or occurs(b, den): continue
        for mq in q.d:
            if len(q.d) != 1 or len(mq) != 1 or A(mq[0]).op != 'divc' or q.d[mq] != 1: continue
            X, c = A(mq[0]).args
            c = c if isinstance(c, int) else c.cval()
            if N != X - c * q or not nonneg(X): continue
            h0 = Subst({b.id: pv(b) - c * q})(h)
            if squares(sum((Subst({b.id: c * pv(b) + const(r)})(h0) for r in range(c)), ZERO) - hq).d: continue
            rest = n0 + Poly({m: -v})
            return rest + d0 * sum_over(lvl, X, h0, den), d0
    S = sum_over(lvl, N, h, den)
    return n0 + d0 * S, d0


def occurs(b, p):
    s = set()
    walk_atoms(p, s)
    return b.id in s


def nonneg(p): return all(c >= 0 and all(A(i).lo is not None and A(i).lo >= 0 for i in m) for m, c in p.d.items())


def squares(p):
    """|t| * |t| is t * t"""
    for m, c in p.d.items():
        for i, a in enumerate(m[:-1]):
            if a != m[i + 1]: continue
            a = A(a)
            if a.op == 'real' and a.args[0] == 'fabs' and a.args[2] == const(1):
                q = Poly({m[:i] + m[i + 2:]: c}) * a.args[1] * a.args[1]
                return squares(p + Poly({m: -c}) + q)
    return p


def infinite(c):
    """x == inf, for a real x (pow(x, 0.5) is compiled with this test)"""
    return isinstance(c, tuple) and c[0] == 'b' and c[1].op == 'fapp' and c[1].args[0] == 'fcmp_oeq' and any(isinstance(q, Atom) and q.op == 'fconst' and fpy(q) in (float('inf'), float('-inf')) for q in c[1].args[1:])


def real_eq(a, b, depth=0):
    """formula: a and b are the same real number (unprovable unless the normal forms agree)"""
    try:
        x, y = rat(a, {}), rat(b, {})
    except Split as s:
        if depth > 12: return F
        c = s.c
        return conj(disj(neg(c), real_eq(pick(a, c, True), pick(b, c, True), depth + 1)), disj(c, real_eq(pick(a, c, False), pick(b, c, False), depth + 1)))
    d = squares(x[0] * y[1] - y[0] * x[1])
    if not d.d: return T
    return eq(d)


def pick(a, c, v):
    class P(Subst):
        def at(self, x):
            if x.op == 'fite' and x.args[0] == c: return self(x.args[1] if v else x.args[2])
            return super().at(x)
    return P({})(a)
