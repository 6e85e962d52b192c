"""Regions and layered contents."""
from terms import *


class Unsupported(Exception):
    pass


class Ptr:
    __slots__ = ('r', 'off')

    def __init__(self, r, off): self.r, self.off = r, off

    def __eq__(self, o): return isinstance(o, Ptr) and self.r == o.r and self.off == o.off
    def __hash__(self): return hash((self.r, self.off))
    def __repr__(self): return f'Ptr({self.r},{self.off})'
    def subst(self, s): return Ptr(self.r, s(self.off))


class FPtr:
    __slots__ = ('n',)

    def __init__(self, n): self.n = n
    def __eq__(self, o): return isinstance(o, FPtr) and self.n == o.n
    def __hash__(self): return hash(self.n)
    def __repr__(self): return f'FPtr({self.n})'
    def subst(self, s): return self


class PIte:
    """pointer-valued conditional; resolved by case split when used"""
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b): self.c, self.a, self.b = c, a, b
    def __eq__(self, o): return isinstance(o, PIte) and (self.c, self.a, self.b) == (o.c, o.a, o.b)
    def __hash__(self): return hash((self.c, self.a, self.b))
    def __repr__(self): return f'PIte({self.c},{self.a},{self.b})'
    def subst(self, s):
        c = s(self.c)
        if c == T: return s(self.a)
        if c == F: return s(self.b)
        return PIte(c, s(self.a), s(self.b))


class Agg:
    __slots__ = ('e',)

    def __init__(self, e): self.e = tuple(e)
    def __eq__(self, o): return isinstance(o, Agg) and self.e == o.e
    def __hash__(self): return hash(self.e)
    def __repr__(self): return f'Agg{self.e}'
    def subst(self, s): return Agg(s(x) for x in self.e)


class Undef:
    __slots__ = ('ty',)

    def __init__(self, ty): self.ty = ty
    def __repr__(self): return f'undef:{self.ty}'
    def subst(self, s): return self


class Junk:
    """value that must not be used"""
    __slots__ = ('why',)

    def __init__(self, why): self.why = why
    def __repr__(self): return f'junk:{self.why}'
    def subst(self, s): return self


NULL = Ptr(0, ZERO)


class Node:
    __slots__ = ('k', 'prev', 'off', 'size', 'val', 'ty', 'vars', 'guard', 'src', 'soff', 'len', 'ctx', 'name', 'es', 'r', 'key')

    def __init__(self, k, prev=None, **kw):
        self.k, self.prev = k, prev
        for a, v in kw.items(): setattr(self, a, v)

    def copy_on(self, prev):
        n = Node(self.k, prev)
        for a in Node.__slots__[2:]:
            try: setattr(n, a, getattr(self, a))
            except AttributeError: pass
        return n

    def __repr__(self):
        if self.k == 'W': return f'W[{self.off}:{self.size}]={self.val}'
        if self.k == 'C': return f'C{self.vars}|{self.guard}|[{self.off}:{self.size}]={self.val}'
        if self.k in ('Cp', 'CC'): return f'{self.k}[{self.off}+{self.len}]<-{self.src.k}@{self.soff}'
        if self.k == 'Fl': return f'Fl[{self.off}+{self.len}]={self.val}'
        if self.k == 'G': return 'G' + repr(self.es)
        return self.k

    def dump(self):
        n = self
        out = []
        while n is not None:
            out.append(repr(n)); n = n.prev
        return '\n   '.join(out)


class Region:
    __slots__ = ('id', 'name', 'size', 'kind', 'addr')

    def __init__(self, id, name, size, kind):
        self.id, self.name, self.size, self.kind = id, name, size, kind
        self.addr = atom('addr', (id,), 'I', 1 << 16, 1 << 47)


def base(kind, name=None, es=1, ty=None, r=None):
    return Node('B', None, val=kind, name=name, es=es, ty=ty, r=r)


class State:
    __slots__ = ('pc', 'mem', 'freed', 'forall', 'exn', 'ghost', 'trace', 'caught', 'junk')

    def __init__(self, pc):
        self.pc = pc
        self.mem = {}
        self.freed = frozenset()
        self.forall = ()
        self.exn = None
        self.ghost = {}
        self.trace = ()
        self.caught = ()
        self.junk = False

    def clone(self):
        s = State(self.pc)
        s.mem = dict(self.mem)
        s.freed, s.forall, s.exn = self.freed, self.forall, self.exn
        s.ghost = dict(self.ghost)
        s.trace, s.caught, s.junk = self.trace, self.caught, self.junk
        return s

    def assume(self, f):
        if f != T: self.pc = self.pc.add(f)
        return self
