"""Rounding-direction analysis: every integer term is read as an exact rational function plus a direction of rounding.

dir: '=' exact, 'up' (never below the exact value), 'dn' (never above), '~' (nearest / mixed).
The exact values of two terms are compared as rational functions (cross-multiplied polynomials)."""
from .terms import *
from .norm import Norm, ATOMS

FLIP = {'=': '=', 'up': 'dn', 'dn': 'up', '~': '~'}
PN = ('PreciseNumber::', 'DFSPreciseNumber::', 'dfs_precise_number::DFSPreciseNumber::')


def join(*d):
    s = {x for x in d if x != '='}
    if not s:
        return '='
    return s.pop() if len(s) == 1 else '~'


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        n = r.get(m, 0) + k * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = tuple(sorted(m1 + m2))
            n = r.get(m, 0) + c1 * c2
            if n:
                r[m] = n
            else:
                r.pop(m, None)
    return r


ONE = {(): 1}
SCALE = 10 ** 18


class Real:
    """self.of(t) -> (num, den, dir, rounds)"""

    def __init__(self, facts):
        self.F = facts
        self.N = Norm(facts)
        self.memo = {}
        self.last = None

    def of(self, t):
        if t not in self.memo:
            self.memo[t] = self._of(t)
        return self.memo[t]

    def atomize(self, t):
        return self.N.poly(t), ONE, '=', 0

    def sqrt(self, n, d):
        # cancel common monomials / constants so that equal arguments are the same atom
        from math import gcd
        g = 0
        for c in list(n.values()) + list(d.values()):
            g = gcd(g, abs(c))
        if g > 1:
            n, d = {m: c // g for m, c in n.items()}, {m: c // g for m, c in d.items()}
        ms = list(n) + list(d)
        common = None
        for m in ms:
            cnt = {}
            for x in m:
                cnt[x] = cnt.get(x, 0) + 1
            common = cnt if common is None else {k: min(v, cnt[k]) for k, v in common.items() if k in cnt}
        if common:
            def red(p):
                r = {}
                for m, c in p.items():
                    l = list(m)
                    for k, v in common.items():
                        for _ in range(v):
                            l.remove(k)
                    r[tuple(l)] = c
                return r
            n, d = red(n), red(d)
        a = T('sqrtq', tuple(sorted(n.items())), tuple(sorted(d.items())))
        ATOMS[a.id] = a
        return {(a.id,): 1}

    def _of(self, t):
        F = self.F
        u = F.find(t)
        if u.op == 'c':
            return ({(): u.args[0]} if u.args[0] else {}), ONE, '=', 0
        op = t.op
        if op == 'fld' and t.args[1] == 0 and t.args[2] == 'Some' and t.args[0].op == 'call':
            r = self.call(t.args[0])
            if r is not None:
                return r
        if op == 'fld' and t.args[1] == 0 and t.args[2] in ('Some', 'Ok') and t.args[0].op in ('conv',):
            return self.of(t.args[0].args[-1])
        if op == 'sym' and t.args[2] is not None:
            return self.of(t.args[2])
        if op == 'sym' and t.args[1].op == 'call':
            r = self.call(t.args[1])
            if r is not None:
                return r
        if op == 'call':
            r = self.call(t)
            if r is not None:
                return r
        if op == 'c':
            return self.atomize(t)
        # fixed-point representation: the value field holds 10^18 times the number
        if op == 'agg' and t.args[0] == 'DFSPreciseNumber':
            x = self.of(t.args[2])
            return x[0], {m: c * SCALE for m, c in x[1].items()}, x[2], x[3]
        if op == 'fld' and t.args[1] == 0 and t.args[2] is None and t.args[0].op == 'fld' and t.args[0].args[0].op == 'call' \
                and 'DFSPreciseNumber::' in t.args[0].args[0].args[0]:
            x = self.of(t.args[0])
            return {m: c * SCALE for m, c in x[0].items()}, x[1], x[2], x[3]
        if op == 'add':
            for x, y in (t.args, t.args[::-1]):
                if x is C(1) and y.op == 'div' and F.ne(T('rem', *y.args), C(0)):
                    return self.quot(y.args[0], y.args[1], 'up')
            a, b = self.of(t.args[0]), self.of(t.args[1])
            return self.lin(a, b, 1, join(a[2], b[2]))
        if op == 'sub':
            x, y = t.args
            # ceil as floor((a + b - 1) / b) is handled in div
            a, b = self.of(x), self.of(y)
            return self.lin(a, b, -1, join(a[2], FLIP[b[2]]))
        if op == 'mul':
            a, b = self.of(t.args[0]), self.of(t.args[1])
            return pmul(a[0], b[0]), pmul(a[1], b[1]), join(a[2], b[2]), max(a[3], b[3])
        if op == 'div':
            x, y = t.args
            # floor((a + b - 1) / b) is the ceiling of a / b
            px, py = self.N.poly(x), self.N.poly(y)
            if px.get((), 0) == -1 or (py.get((), 0) and False):
                rest = padd(px, padd(py, ONE, -1), -1)
                if rest and all(c >= 0 for c in rest.values()):
                    return rest, py, 'up', 1
            return self.quot(x, y, 'dn')
        if op in ('ceilq', 'ceildiv'):
            return self.quot(t.args[0], t.args[1], 'up')
        if op == 'ceilr':
            b = self.of(t.args[1])
            return b[0], b[1], join(b[2], 'dn'), b[3]
        if op == 'rem':
            if F.eq(t, C(0)):
                return {}, ONE, '=', 0
            return {}, ONE, 'up', 1
        if op == 'pow' and t.args[1].op == 'c' and t.args[1].args[0] <= 6:
            a = self.of(t.args[0])
            n, d = ONE, ONE
            for _ in range(t.args[1].args[0]):
                n, d = pmul(n, a[0]), pmul(d, a[1])
            return n, d, a[2], a[3]
        return self.atomize(t)

    def lin(self, a, b, k, d):
        if a[1] == b[1]:
            return padd(a[0], b[0], k), a[1], d, max(a[3], b[3])
        return padd(pmul(a[0], b[1]), pmul(b[0], a[1]), k), pmul(a[1], b[1]), d, max(a[3], b[3])

    def quot(self, x, y, d):
        a, b = self.of(x), self.of(y)
        ex = self.F.eq(T('rem', x, y), C(0))
        if a[0] and pmul(b[1], a[0]).keys() == {()} and pmul(a[1], b[0]).keys() == {()}:
            n, m = pmul(a[0], b[1])[()], pmul(a[1], b[0])[()]
            ex = ex or n % m == 0
        return pmul(a[0], b[1]), pmul(a[1], b[0]), join(a[2], FLIP[b[2]], '=' if ex else d), max(a[3], b[3]) + (0 if ex else 1)

    def call(self, t):
        name = t.args[0]
        for p in PN:
            if name.startswith(p):
                m = name[len(p):]
                break
        else:
            return None
        a = t.args[1:]
        if m == 'new':
            return self.of(a[0])
        if m in ('checked_add', 'checked_sub'):
            x, y = self.of(a[0]), self.of(a[1])
            return self.lin(x, y, 1 if m == 'checked_add' else -1, join(x[2], y[2] if m == 'checked_add' else FLIP[y[2]]))
        # products, quotients and roots of the fixed-point types are read as exact up to their resolution
        if m == 'checked_mul':
            x, y = self.of(a[0]), self.of(a[1])
            return pmul(x[0], y[0]), pmul(x[1], y[1]), join(x[2], y[2]), max(x[3], y[3])
        if m == 'checked_div':
            x, y = self.of(a[0]), self.of(a[1])
            return pmul(x[0], y[1]), pmul(x[1], y[0]), join(x[2], FLIP[y[2]]), max(x[3], y[3])
        if m == 'sqrt':
            x = self.of(a[0])
            return self.sqrt(x[0], x[1]), ONE, x[2], x[3]
        if m == 'sqrt_u64':
            x = self.of(a[0])
            d = self.F.decide(a[1])
            return self.sqrt(x[0], x[1]), ONE, join(x[2], '~' if d is None else 'up' if d else 'dn'), x[3]
        if m == 'floor':
            x = self.of(a[0])
            return x[0], x[1], 'dn' if x[2] in ('=', 'dn') else '~', x[3] + 1
        if m == 'ceiling':
            x = self.of(a[0])
            return x[0], x[1], 'up' if x[2] in ('=', 'up') else '~', x[3] + 1
        if m == 'to_imprecise':
            x = self.of(a[0])
            inner = a[0]
            while inner.op == 'sym':
                inner = inner.args[2] if inner.args[2] is not None else inner.args[1]
            src = inner.args[0] if inner.op == 'fld' else inner
            whole = src.op == 'call' and src.args[0].split('::')[-1] in ('floor', 'ceiling', 'new')
            return x[0], x[1], x[2] if whole else '~', x[3] + (0 if whole else 1)
        return None

    def same(self, a, b):
        """exact values equal as rational functions"""
        return self.zero(self.cross(a, b))

    def cross(self, a, b):
        x, y = self.of(a) if isinstance(a, T) else a, self.of(b) if isinstance(b, T) else b
        return padd(pmul(x[0], y[1]), pmul(y[0], x[1]), -1)

    def zero(self, p):
        if not p:
            return True
        for atom, n, d in self.clamps():
            if not self.substitute(p, atom, n, d):
                return True
        return False

    def clamps(self):
        """x - y is None: the code continues with 0, i.e. x counts as y"""
        out = []
        for k, v in self.F.var.items():
            if v == 'None' and k.op == 'call' and k.args[0].endswith('DFSPreciseNumber::checked_sub'):
                x, y = self.of(k.args[1]), self.of(k.args[2])
                if len(x[0]) == 1 and x[1] == ONE:
                    (m, c), = x[0].items()
                    if c == 1 and len(m) == 1:
                        out.append((m[0], y[0], y[1]))
        return out

    @staticmethod
    def substitute(p, atom, n, d):
        k = max((m.count(atom) for m in p), default=0)
        r = {}
        for m, c in p.items():
            j = m.count(atom)
            q = {tuple(x for x in m if x != atom): c}
            for _ in range(j):
                q = pmul(q, n)
            for _ in range(k - j):
                q = pmul(q, d)
            r = padd(r, q)
        return r

    def text(self, t):
        x = self.of(t)
        return '(%s)/(%s) [%s]' % (ptext(x[0]), ptext(x[1]), x[2])


def ptext(p):
    out = []
    for m, c in sorted(p.items(), key=lambda z: str(z[0])):
        s = '*'.join(pp(ATOMS[i])[:60] for i in m)
        out.append(('%s*%s' % (c, s) if c != 1 else s) if s else str(c))
    return ' + '.join(out)[:400] or '0'
