"""Polynomial normal form of integer terms, and comparisons modulo that form and path facts."""
from .terms import *

ARITH = ('add', 'sub', 'mul')


class Norm:
    """facts: optional path facts used to replace a term by the constant it is known to equal"""

    def __init__(self, facts=None, rewrite=None):
        self.F = facts
        self.rw = rewrite
        self.memo = {}
        self.pm = {}

    def atom(self, t):
        if t.op in ARITH or t.op == 'c':
            return t
        args = tuple(self.term(a) if isinstance(a, T) else a for a in t.args)
        r = rebuild(t.op, args) if args != t.args else t
        return r

    def poly(self, t):
        if t in self.pm:
            return self.pm[t]
        r = self._poly(t)
        self.pm[t] = r
        return r

    def _poly(self, t):
        if self.F is not None:
            u = self.F.find(t)
            if u.op == 'c' and u is not t:
                t = u
        if self.rw:
            u = self.rw(t)
            if u is not None and u is not t:
                return self.poly(u)
        if t.op == 'c':
            return {(): t.args[0]} if t.args[0] else {}
        if t.op in ('add', 'sub'):
            r = dict(self.poly(t.args[0]))
            for m, c in self.poly(t.args[1]).items():
                n = r.get(m, 0) + (c if t.op == 'add' else -c)
                if n:
                    r[m] = n
                else:
                    r.pop(m, None)
            return r
        if t.op == 'mul':
            r = {}
            for m1, c1 in self.poly(t.args[0]).items():
                for m2, c2 in self.poly(t.args[1]).items():
                    m = tuple(sorted(m1 + m2))
                    n = r.get(m, 0) + c1 * c2
                    if n:
                        r[m] = n
                    else:
                        r.pop(m, None)
            return r
        if t.op == 'pow' and t.args[1].op == 'c' and t.args[1].args[0] <= 6:
            r = {(): 1}
            for _ in range(t.args[1].args[0]):
                r2 = {}
                for m1, c1 in r.items():
                    for m2, c2 in self.poly(t.args[0]).items():
                        m = tuple(sorted(m1 + m2))
                        r2[m] = r2.get(m, 0) + c1 * c2
                r = {m: c for m, c in r2.items() if c}
            return r
        if t.op in ('min', 'max') and len(t.args) == 2:
            x, y = t.args
            if self.F is not None:
                for u, v in ((x, y), (y, x)):
                    if self.ge0(u, v):
                        return self.poly(v if t.op == 'min' else u)
            if any(not self.poly(z) for z in (x, y)):       # unsigned: zero is the least value
                return {} if t.op == 'min' else dict(self.poly(x) or self.poly(y))
        a = self.atom(t)
        if a.op in ARITH or a.op == 'c':
            return self.poly(a)
        if self.F is not None:
            u = self.F.find(a)
            if u.op == 'c':
                return {(): u.args[0]} if u.args[0] else {}
        ATOMS[a.id] = a
        return {(a.id,): 1}

    def term(self, t):
        """canonical term"""
        if t in self.memo:
            return self.memo[t]
        p = self.poly(t)
        r = self.build(p)
        self.memo[t] = r
        return r

    def build(self, p):
        items = sorted(p.items())
        if not items:
            return C(0)
        if len(items) == 1:
            m, c = items[0]
            if m == ():
                return C(c) if c >= 0 else T('poly', ((), c))
            if c == 1 and len(m) == 1:
                return ATOMS[m[0]]
        return T('poly', *items)

    def eq(self, a, b):
        return self.poly(a) == self.poly(b) or (self.F is not None and self.F.eq(a, b)) or self.term(a) is self.term(b)

    def diff(self, a, b):
        return self.poly(binop_raw('sub', a, b))

    def ge0(self, a, b):
        """a >= b by a recorded comparison of the two, or of the dividend of a quotient by a constant"""
        F = self.F
        if F.ge(a, b):
            return True
        for u, v, up in ((a, b, False), (b, a, True)):            # a quotient by a constant against a constant
            if u.op == 'div' and u.args[1].op == 'c' and u.args[1].args[0] > 0 and v.op == 'c':
                n = C((v.args[0] + up) * u.args[1].args[0])
                if F.decide(mk_lt(u.args[0], n)) is up:
                    return True
        return False

    def ge(self, a, b):
        """a >= b follows from the recorded comparisons"""
        F = self.F
        if self.ge0(a, b):
            return True
        d = self.diff(a, b)
        if all(c >= 0 for c in d.values()):
            return True          # unsigned atoms
        for op, s in (('max', a), ('min', b)):
            s2 = F.find(s)
            for q in (s, s2):
                if q.op == op and (any(self.ge(x, b) for x in q.args) if op == 'max' else any(self.ge(a, x) for x in q.args)):
                    return True
        if a.op == 'min' and all(self.ge(x, b) for x in a.args):
            return True
        if b.op == 'max' and all(self.ge(a, x) for x in b.args):
            return True
        for u, v in F.nlt:                     # u >= v
            if self.diff(u, v) == d:
                return True
        for u, v in F.lts:                     # v > u
            e = self.diff(v, u)
            if e == d:
                return True
            e = dict(e)
            e[()] = e.get((), 0) - 1
            if not e[()]:
                del e[()]
            if e == d:
                return True
        return False

    def gt0(self, a):
        F = self.F
        if F.ne(a, C(0)) or F.decide(mk_lt(C(0), a)) is True:
            return True
        n = self.term(a)
        if n.op == 'c':
            return n.args[0] > 0
        for u, v in list(F.neq):
            for x, y in ((u, v), (v, u)):
                if F.find(y) is C(0) and self.eq(x, a):
                    return True
        if a.op == 'max':
            return any(self.gt0(x) for x in a.args)
        if a.op == 'min':
            return all(self.gt0(x) for x in a.args)
        if a.op == 'div' and F.decide(mk_lt(a.args[0], a.args[1])) is False:
            return True
        d = self.poly(a)
        if d and all(c >= 0 for c in d.values()) and d.get((), 0) > 0:
            return True
        for u, v in F.lts:
            if self.diff(v, u) == d:
                return True
        for u, v in F.neq:
            if self.diff(u, v) == d or self.diff(v, u) == d:
                return True
        return False


ATOMS = {}


def binop_raw(op, a, b):
    return T(op, a, b)
