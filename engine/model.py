"""Concrete input values from a failed obligation (Z3 model of path condition and negated goal)."""
import z3
from terms import *
from loops import walk_any


def find(E, ob, bounds=(6, 12, 40, 130, 300, 1100, 4200, None), timeout=4000):
    """yield dicts: {'name': int} and {'name': {idx: int}}"""
    S = E.S
    saved = S.nia_timeout
    S.nia_timeout = timeout
    try:
        for b in bounds:
            extra = [neg(ob['goal'])]
            if b is not None:
                for n, s in E.inputs.items():
                    if isinstance(s, Atom) and s.sort == 'I':
                        lo = s.lo or 0
                        if lo + b < (s.hi if s.hi is not None else 1 << 64): extra.append(ge((max(lo, 0) if lo >= 0 else 0) + b - pv(s)))
                        if lo < -b: extra.append(ge(pv(s) + b))
            r, m, tr = S.model(ob['pc'], conj(*extra))
            if m is None: continue
            out = {}

            def val(x):
                v = m.eval(tr.any(x, set()), model_completion=True)
                return v.as_long() if z3.is_int_value(v) else None
            for n, s in E.inputs.items():
                if isinstance(s, Atom) and s.sort == 'I': out[n] = val(s)
            ids = set()
            for f in ob['pc'].all() + [ob['goal']]: walk_any(f, ids)
            for i in ids:
                a = A(i)
                if a.op == 'sel' and a.sort == 'I':
                    q = val(a.args[1])
                    v = val(a)
                    if q is not None and v is not None and 0 <= q < (1 << 34): out.setdefault(a.args[0], {})[q] = v
            yield out
    finally:
        S.nia_timeout = saved


def write(d, path, header):
    with open(path, 'w') as o:
        o.write(header)
        for n, v in d.items():
            if isinstance(v, dict):
                for i, x in v.items(): o.write(f'{n}[{i}] {x}\n')
            elif v is not None: o.write(f'{n} {v}\n')
