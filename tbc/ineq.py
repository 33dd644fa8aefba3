"""Nonnegativity of integer polynomials from the defining inequalities of quotients, remainders, minima and recorded comparisons.

A goal E >= 0 is decided by writing E as a sum of known nonnegative polynomials times monomials of unsigned atoms (plus a
polynomial without negative coefficients).  The search only ever adds true inequalities, so a found decomposition is a proof."""
from fractions import Fraction
from .terms import *
from .norm import ATOMS


def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        n = r.get(m, 0) + k * c
        if n:
            r[m] = n
        else:
            r.pop(m, None)
    return r


def pmul(p, q):
    r = {}
    for m1, c1 in p.items():
        for m2, c2 in q.items():
            m = tuple(sorted(m1 + m2))
            n = r.get(m, 0) + c1 * c2
            if n:
                r[m] = n
            else:
                r.pop(m, None)
    return r


def over(m, d):
    """monomial m / d, or None"""
    l = list(m)
    for x in d:
        if x in l:
            l.remove(x)
        else:
            return None
    return tuple(l)


def whole(t):
    """spl-math's fixed-point number built from an integer and read back is that integer"""
    if t.op == 'fld' and t.args[0].op == 'call' and t.args[0].args[0] == 'PreciseNumber::to_imprecise':
        n = t.args[0].args[1]
        if n.op == 'fld' and n.args[0].op == 'call' and n.args[0].args[0] == 'PreciseNumber::new':
            return n.args[0].args[1]


class Ineq:
    budget = 5000             # candidate combinations tried for one goal; the goals that hold need fewer than 100

    def __init__(self, N):
        self.N, self.F = N, N.F
        self.lem, self.sub = {}, {}
        self.compared()

    def name(self, e):
        """give the nonnegative amount e, when a sum of several terms, a name: an atom occurring linearly in it is replaced by the
        name less the other terms"""
        if len(e) > 1:
            for m, c in e.items():
                if c == 1 and len(m) == 1 and not any(m[0] in x for x in e if x != m):
                    b = self.atom(T('amount', m[0]))
                    self.sub[m[0]] = padd(padd(b, e, -1), {m: 1})
                    self.compared()
                    return

    def compared(self):
        self.facts = []
        for u, v in self.F.nlt:
            self.facts.append(padd(self.p(u), self.p(v), -1))
        for u, v in self.F.lts:
            self.facts.append(padd(padd(self.p(v), self.p(u), -1), {(): 1}, -1))

    def p(self, t):
        q = dict(t.args) if t.op == 'poly' else self.N.poly(t)
        r = {}
        for m, c in q.items():
            e = {(): c}
            for i in m:
                x = whole(ATOMS[i])
                e = pmul(e, self.sub.get(i, {(i,): 1}) if x is None else self.p(x))
            r = padd(r, e)
        return r

    def atom(self, t):
        ATOMS[t.id] = t
        return {(t.id,): 1}

    def zero(self, t):
        if self.N.eq(t, C(0)):
            return True
        for l, tr in self.F.literals():
            if tr and l.op == 'eq' and C(0) in l.args:
                x = l.args[0] if l.args[1] is C(0) else l.args[1]
                if x is t or x.op == t.op and len(x.args) == len(t.args) and all(self.p(u) == self.p(v) for u, v in zip(x.args, t.args)):
                    return True
        return False

    def positive(self, t, n=0):
        """the ceiling quotient t is at least 1 (the library's returns 0 for a dividend below half the divisor)"""
        if self.N.gt0(t):
            return True
        if n < 4:
            for x in self.pos_ceil():
                a = x.args[0]
                if x is not t and (a is t or any(t.id in m for m in [k for k in self.p(a)]) and len(self.p(a)) == 1):
                    return True
        return False

    def pos_ceil(self):
        return [a for a in list(self.ceils) if self.N.gt0(a)]

    ceils = ()

    def lemmas(self, t):
        if t in self.lem:
            return self.lem[t]
        self.lem[t] = out = []
        me = self.atom(t)
        if t.op == 'div' and len(t.args) == 2:
            a, b = self.p(t.args[0]), self.p(t.args[1])
            out.append(padd(a, pmul(b, me), -1))
            up = padd(padd(pmul(b, me), b), a, -1)
            out.append(padd(up, {(): 1}, -1))
            if self.zero(T('rem', *t.args)):
                out.append(padd(pmul(b, me), a, -1))
        elif t.op == 'rem':
            a, b = self.p(t.args[0]), self.p(t.args[1])
            q = self.atom(T('div', *t.args))
            eq = padd(padd(a, pmul(b, q), -1), me, -1)
            out += [eq, {m: -c for m, c in eq.items()}, padd(padd(b, me, -1), {(): 1}, -1)]
        elif t.op == 'ceilq':
            a, b = self.p(t.args[0]), self.p(t.args[1])
            if self.positive(t):
                out.append(padd(pmul(b, me), a, -1))
                out.append(padd(padd(padd(a, b), pmul(b, me), -1), {(): 1}, -1))
        elif t.op == 'ceilr':
            out.append(padd(self.p(t.args[1]), me, -1))
            # the adjusted divisor times the quotient covers the dividend, unless the adjusted divisor is 0; a recorded lower
            # bound (a sum of nonnegative terms, then all 0) excludes that, or makes the dividend 0 as well
            a = self.p(t.args[0])
            q = self.atom(T('ceilq', *t.args))
            low = self.N.gt0(t)
            for f in self.facts:
                neg = [m for m, c in f.items() if c < 0]
                if [m for m, c in f.items() if c > 0] == [(t.id,)] and neg and all(any(over(m, n) is not None for n in neg) for m in a):
                    low = True
            if low:
                out.append(padd(pmul(me, q), a, -1))
        elif t.op == 'fld' and t.args[0].op == 'call' and t.args[0].args[0] == 'DFSPreciseNumber::to_imprecise':
            # a fixed-point number below a whole one is read back, rounded to nearest, as at most that
            x = fld(t.args[0].args[1], 0)
            for u, v in self.F.lts:
                if v.op == 'fld' and v.args[1] == 0 and v.args[0].op == 'fld' and v.args[0].args[0].op == 'call' \
                        and v.args[0].args[0].args[0] == 'DFSPreciseNumber::new' and (u is x or self.F.eq(u, x)):
                    out.append(padd(self.p(v.args[0].args[0].args[1]), me, -1))
        elif t.op in ('min', 'max') and len(t.args) == 2:
            for x in t.args:
                e = padd(self.p(x), me, -1)
                out.append(e if t.op == 'min' else {m: -c for m, c in e.items()})
        return out

    def top(self, t):
        """upper bound of an atom of an instruction's computation: what is read from accounts and arguments has at most 64 bits"""
        if t.op == 'fld' and not any(x.op == 'call' and x.args[0] != 'SwapV1::unpack' for x in walk(t)):
            return 2 ** 64 - 1
        if t.op == 'sat' and t.args[0] == 'sub' and t.args[3].op == 'c':
            h = self.most(self.p(t.args[2]))
            return None if h is None else max(0, h - t.args[3].args[0])
        if t.op == 'div':
            return self.most(self.p(t.args[0]))

    def most(self, e):
        r = 0
        for m, c in e.items():
            if c > 0:
                for i in m:
                    h = self.top(ATOMS[i])
                    if h is None:
                        return None
                    c *= h
                r += c
            elif not m:
                r += c
        return r

    def infeasible(self):
        """some recorded comparison cannot hold for 64-bit inputs"""
        for f in self.facts:
            if f.get((), 0) < 0:
                h = self.most(f)
                if h is not None and h < 0:
                    return True
        return False

    def atoms(self, e):
        seen, st = set(), [ATOMS[i] for m in e for i in m if i in ATOMS]
        while st:
            t = st.pop()
            if t in seen:
                continue
            seen.add(t)
            for a in t.args:
                if isinstance(a, T):
                    st += [ATOMS[i] for m in self.p(a) for i in m if i in ATOMS]
        return seen

    def nonneg(self, e, depth=8):
        if all(c >= 0 for c in e.values()):
            return True
        if self.infeasible():
            return True
        ats = self.atoms(e)
        more = set()
        for f in self.facts:
            more |= self.atoms(f)
        self.ceils = [t for t in ats | more if t.op == 'ceilq']
        self.lem = {}
        # a remainder comes with its quotient
        for t in list(ats | more):
            if t.op == 'rem':
                ATOMS.setdefault(T('div', *t.args).id, T('div', *t.args))
        for t in list(ats):
            if t.op == 'div':
                r = T('rem', *t.args)
                if any(r is x for x in more):
                    ats.add(r)

        def lemmas(ats):
            ids = {t.id for t in ats}
            return [l for t in sorted(ats, key=lambda t: t.id) for l in self.lemmas(t)] + \
                [f for f in self.facts if all(i in ids for m in f for i in m) and any(c < 0 for c in f.values())]
        near, far = lemmas(ats), lemmas(ats | more)
        seen = set()
        self.steps = self.work = 0

        def go(e, d):
            neg = [m for m, c in e.items() if c < 0]
            if not neg:
                return True
            if d == 0 or self.steps > 3000 or self.work > Ineq.budget:
                return False
            k = tuple(sorted(e.items()))
            if (k, d) in seen:
                return False
            seen.add((k, d))
            self.steps += 1
            for m in sorted(neg, key=lambda m: (-len(m), m))[:1 if narrow else 3]:
                for l in L:
                    for lm, lc in l.items():
                        if lc >= 0 or narrow and not lm:
                            continue
                        mono = over(m, lm)
                        if mono is None:
                            continue
                        prod = pmul(l, {mono: 1})
                        # remove all of the negative term, or as much as a positive term of e pays for
                        full = Fraction(e[m], lc)
                        ks = [full] + sorted({Fraction(e[x], c) for x, c in prod.items() if c > 0 and 0 < e.get(x, 0) < full * c}, reverse=True)
                        for k in ks:
                            self.work += 1
                            e2 = padd({x: c * k.denominator for x, c in e.items()}, prod, -k.numerator)
                            if go(e2, d - 1):
                                return True
            return False
        # first one negative term at a time, without multiples of constants; then more widely
        for narrow in (True, False):
            for L in (near, far) if len(far) > len(near) else (near,):
                for d in range(1, depth + 1 if narrow else 6):
                    seen.clear()
                    self.steps = 0
                    if go(e, d):
                        return True
        return False
