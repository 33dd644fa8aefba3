"""Arithmetic safety, termination, the stable curve's iteration and the fixed-point primitives (families F01, F02, F07, G05, I01)."""
from fractions import Fraction
from math import isqrt
from .common import *
from .instr import each, where
from .curves import CURVES, DFS, calc, payload, res, Spec, cp_pool_tokens, value
from .rules import method
from ..real import Real
from ..mir import parse_body, canon_call

WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'U256': 256}
U64 = 2 ** 64 - 1
METHODS = ('swap_without_fees', 'pool_tokens_to_trading_tokens', 'deposit_single_token_type', 'withdraw_single_token_type_exact_out',
           'normalized_value', 'validate', 'validate_supply', 'new_pool_supply', 'allows_deposits')
PRIMS = ['DFSPreciseNumber::' + m for m in ('new', 'to_imprecise', 'checked_add', 'checked_sub', 'checked_mul', 'checked_div', 'unsigned_sub', 'floor', 'ceiling',
                                            'less_than', 'greater_than', 'less_than_or_equal', 'greater_than_or_equal', 'almost_eq', 'sqrt_u64')]
UNPACK = ['SwapVersion::unpack', '<SwapV1 as Pack>::unpack_from_slice', '<Fees as Pack>::unpack_from_slice', '<SwapCurve as Pack>::unpack_from_slice']


def maxof(w):
    return 2 ** WIDTH[w] - 1 if w in WIDTH else None


# ------------------------------------------------------------------------------------------------ value bounds

class Bound:
    """interval of an unsigned integer term under path facts; all intermediate terms hold their exact mathematical value"""

    def __init__(self, F, default=None):
        self.F, self.N, self.dflt = F, Norm(F), default
        self.memo = {}
        self.cons = {}
        for t, tr in F.literals():
            if t.op == 'lt':
                a, b = t.args
                if tr:
                    self.cons.setdefault(b, []).append(('>', a))
                    self.cons.setdefault(a, []).append(('<', b))
                else:
                    self.cons.setdefault(a, []).append(('>=', b))
                    self.cons.setdefault(b, []).append(('<=', a))
            if t.op == 'eq' and tr:
                self.cons.setdefault(t.args[0], []).append(('=', t.args[1]))
                self.cons.setdefault(t.args[1], []).append(('=', t.args[0]))

    def of(self, t, w=None, depth=0):
        """(lo, hi), hi None if unknown; w: machine type the term fits in"""
        k = (t, w)
        if k in self.memo:
            return self.memo[k]
        self.memo[k] = (0, maxof(w) if w else None)
        lo, hi = self.raw(t, w, depth)
        m = maxof(w) if w else None
        if m is not None:
            hi = m if hi is None else min(hi, m)
        if depth < 6:
            for op, x in self.cons.get(t, ()):
                l2, h2 = self.of(x, None, depth + 1) if x.op != 'c' else (x.args[0], x.args[0])
                if op in ('>', '>=', '='):
                    lo = max(lo, l2 + (op == '>'))
                if op in ('<', '<=', '=') and h2 is not None:
                    h2 -= op == '<'
                    hi = h2 if hi is None else min(hi, h2)
        c = self.F.const(t)
        if c is not None and not isinstance(c, bool):
            lo = hi = c
        if lo == 0 and self.F.ne(t, C(0)):
            lo = 1
        self.memo[k] = (lo, hi)
        return lo, hi

    def raw(self, t, w, d):
        o, a = t.op, t.args
        g = lambda x: self.of(x, w, d + 1)
        if o == 'c':
            return a[0], a[0]
        if o == 'b':
            return int(a[0]), int(a[0])
        if o == 'param' or o in ('fld', 'havoc', 'item', 'idx', 'ixarg', 'unpacked'):
            return 0, self.dflt
        if o == 'add':
            (l1, h1), (l2, h2) = g(a[0]), g(a[1])
            return l1 + l2, None if None in (h1, h2) else h1 + h2
        if o == 'mul':
            (l1, h1), (l2, h2) = g(a[0]), g(a[1])
            return l1 * l2, None if None in (h1, h2) else h1 * h2
        if o == 'sub':
            (l1, h1), (l2, h2) = g(a[0]), g(a[1])
            lo = max(0, l1 - h2) if h2 is not None else 0
            return lo, None if h1 is None else max(0, h1 - l2)
        if o == 'div':
            (l1, h1), (l2, h2) = g(a[0]), self.of(a[1], None, d + 1)
            l2 = max(l2, 1)
            if l2 == 1 and any(t2.op == 'rem' and t2.args[1] is a[1] and self.pos(t2) for t2 in self.rems()):
                l2 = 2                       # a remainder by 1 is never positive
            return (0 if h2 is None else l1 // max(h2, 1)), None if h1 is None else h1 // l2
        if o == 'rem':
            h2, h1 = self.of(a[1], None, d + 1)[1], g(a[0])[1]
            hs = [x for x in (h1, h2 - 1 if h2 else None) if x is not None]
            return 0, min(hs) if hs else None
        if o in ('min', 'max'):
            b = [g(x) for x in a]
            hs = [h for _, h in b]
            if o == 'min':
                hk = [h for h in hs if h is not None]
                return min(l for l, _ in b), min(hk) if hk else None
            return max(l for l, _ in b), None if None in hs else max(hs)
        if o == 'shr':
            (l1, h1), (l2, h2) = g(a[0]), self.of(a[1], 'usize', d + 1)
            h = None if h1 is None else h1 >> min(l2, 512)
            bh = self.bits(t)
            if bh is not None:
                h = 2 ** bh - 1 if h is None else min(h, 2 ** bh - 1)
            return 0, h
        if o == 'shl':
            bh = self.bits(t)
            return 0, 2 ** bh - 1 if bh is not None else None
        if o == 'pow':
            (l1, h1), (l2, h2) = g(a[0]), self.of(a[1], 'u32', d + 1)
            return l1 ** min(l2, 512), None if None in (h1, h2) or h2 > 512 else h1 ** h2
        if o == 'trunc':
            l1, h1 = self.of(a[1], None, d + 1)
            m = maxof(a[0])
            if h1 is not None and m is not None and h1 <= m:
                return l1, h1
            return 0, m
        if o in ('conv', 'zext', 'castx', 'as') and len(a) == 2 and isinstance(a[1], T):
            return self.of(a[1], a[0] if a[0] in WIDTH else None, d + 1)
        if o == 'call' and a[0] == 'U256::bits':
            return 0, 256
        if o in ('eq', 'lt', 'not', 'and', 'is'):
            return 0, 1
        return 0, self.dflt

    def rems(self):
        if not hasattr(self, '_rems'):
            s = set()
            for t, _ in self.F.literals():
                s |= {x for x in walk(t) if x.op == 'rem'}
            self._rems = s
        return self._rems

    def pos(self, t):
        return self.F.ne(t, C(0)) or self.F.decide(mk_lt(C(0), t)) is True

    # -- linear upper / lower bounds, for shifts computed from a bit length
    def lin(self, t, up):
        """polynomial bounding t from above (up) or below"""
        o, a = t.op, t.args
        if o == 'c':
            return {(): a[0]} if a[0] else {}
        if o in ('add', 'sub'):
            p, q = self.lin(a[0], up), self.lin(a[1], up if o == 'add' else not up)
            r = dict(p)
            for m, c in q.items():
                r[m] = r.get(m, 0) + (c if o == 'add' else -c)
            return {m: c for m, c in r.items() if c}
        if o == 'mul':
            for x, y in ((a[0], a[1]), (a[1], a[0])):
                if x.op == 'c' and y.op == 'div' and y.args[1] is x and x.args[0] > 0:
                    p = dict(self.lin(y.args[0], up))
                    if not up:
                        p[()] = p.get((), 0) - (x.args[0] - 1)
                    return {m: c for m, c in p.items() if c}
                if x.op == 'c':
                    return {m: c * x.args[0] for m, c in self.lin(y, up).items()}
        if o == 'trunc':
            return self.lin(a[1], up)
        if o == 'rem' and a[1].op == 'c':
            return {(): a[1].args[0] - 1} if up and a[1].args[0] > 1 else {}
        return self.N.poly(t)

    def cap(self, p):
        """greatest value of a linear polynomial"""
        from ..norm import ATOMS
        s = 0
        for m, c in p.items():
            if m == ():
                s += c
                continue
            if len(m) != 1:
                return None
            lo, hi = self.of(ATOMS[m[0]])
            if c > 0 and hi is None:
                return None
            s += c * (hi if c > 0 else lo)
        return s

    def bits(self, t):
        """greatest bit length of a 256-bit value"""
        p = self.bitp(t)
        return None if p is None else max(self.cap(p) if self.cap(p) is not None else 256, 0)

    def bitp(self, t):
        if t.op == 'shl':
            b, k = self.bitp(t.args[0]), self.lin(t.args[1], True)
            if t.args[0].op == 'shr' and t.args[0].args[1] is t.args[1]:
                return self.bitp(t.args[0].args[0])
        elif t.op == 'shr':
            b, k = self.bitp(t.args[0]), {m: -c for m, c in self.lin(t.args[1], False).items()}
        elif t.op == 'c':
            return {(): t.args[0].bit_length()}
        else:
            return self.N.poly(T('call', 'U256::bits', t))
        r = dict(b)
        for m, c in k.items():
            r[m] = r.get(m, 0) + c
        return {m: c for m, c in r.items() if c}


def noted(R):
    """arithmetic of the repository's own code that could lose information, with the facts at that point"""
    for kind, w, a, b, F, span, fn in R.it.log:
        f = str(span[0]) if span else ''
        if f.startswith('/') or not f.endswith('.rs') or 'src/' not in f:
            continue
        yield kind, w, a, b, F, span, fn


def fits(kind, w, a, b, F):
    """the operation is exact: its result is representable"""
    op, ty = w if isinstance(w, tuple) else (None, w)
    B = Bound(F)
    m = maxof(ty)
    if kind in ('trunc', 'panics') and op is None:
        h = B.of(a)[1]
        return h is not None and m is not None and h <= m
    if m is None:
        return False
    if op == 'sub':
        if B.N.ge(a, b):
            return True
        if b.op in ('rem', 'div', 'shr') and B.N.eq(b.args[0], a):
            return True
        if b.op == 'mul' and any(q.op == 'div' and q.args[1] is y and B.N.ge(a, q.args[0]) for q, y in (b.args, b.args[::-1])):
            return True                          # (x / y) * y <= x
        h = B.of(b, ty)[1]
        return h is not None and B.of(a, ty)[0] >= h
    if op == 'mul':                              # (x / y) * y <= x
        for q, y in ((a, b), (b, a)):
            if q.op == 'div' and q.args[1] is y and (B.of(q.args[0], ty)[1] or m + 1) <= m:
                return True
    if op in ('add', 'mul'):
        x, y = B.of(a, ty), B.of(b, ty)
        if None in (x[1], y[1]):
            return False
        if (x[1] + y[1] if op == 'add' else x[1] * y[1]) <= m:
            return True
        if op == 'add' and b.op == 'c' and b.args[0] == 1 or a.op == 'c' and op == 'add' and a.args[0] == 1:
            v = a if b.op == 'c' else b
            for t, tr in F.literals():           # v < something of the same type
                if t.op == 'lt' and (tr and B.N.eq(t.args[0], v)):
                    return True
        return False
    if op == 'pow':
        x, y = B.of(a, ty), B.of(b, 'u32')
        return y[1] is not None and x[1] is not None and y[1] <= 512 and x[1] ** y[1] <= m
    if op == 'shl':
        if ty == 'U256':
            n = B.bits(T('shl', a, b))
            return n is not None and n <= 256
        x, y = B.of(a, ty), B.of(b, 'u32')
        return y[1] is not None and y[1] < WIDTH[ty] and x[1] << y[1] <= m
    if op == 'shr':
        y = B.of(b, 'usize')
        k = B.cap(B.lin(b, True))
        hs = [v for v in (y[1], k) if v is not None]
        return bool(hs) and min(hs) < WIDTH[ty]
    if op in ('div', 'rem'):
        return B.pos(b) or B.of(b, ty)[0] > 0
    return False


def bases(ck):
    """roots of the computations: (label, Root)"""
    out = []
    for c in CURVES:
        for m in METHODS:
            try:
                r = method(ck, c, m, DFS)
            except Anchor:
                continue
            out.append(('%s.%s' % (c, m), r))
    for f in PRIMS:
        if ck.has(f):
            out.append((f, ck.root(f, opaque=[])))
    for f in ('trading_fee', 'owner_trading_fee', 'owner_withdraw_fee', 'host_fee', 'validate'):
        out.append(('Fees::' + f, ck.root('Fees::' + f, opaque=[])))
    for f in UNPACK:
        if ck.has(f):
            out.append((f, ck.root(f, opaque=[])))
    for f in ('SwapCurve::swap', 'SwapCurve::deposit_single_token_type', 'SwapCurve::withdraw_single_token_type_exact_out'):
        out.append((f, ck.root(f, opaque=['Fees::trading_fee', 'Fees::owner_trading_fee'])))
    return out


def handlers(ck, inits=True):
    out = [(k, ck.instr(k)) for k in TRADE_INSTR + ['swap_host']]
    if inits:
        out += [(k, ck.instr(k)) for k in INIT_INSTR]
    return out


LOSSY = ('sat', 'wrapped', 'saturating', 'wrapping')


@prop('F01')
def f01(ck):
    ck.rule('exact', 'each wrapping, truncating or narrowing operation of the repository reached from an instruction, a curve, a fee or the fixed-point type is '
            'established exact: interval and bit-length bounds on its operands under the facts of the path show the result is representable; a saturating or '
            'explicitly wrapping operation may only be used in a comparison')
    n = 0
    for label, R in bases(ck) + handlers(ck):
        outs = set()
        for p in R.ok:
            for e in p.effects:
                for x in e[1:]:
                    if isinstance(x, T):
                        outs |= set(walk(x))
            if isinstance(p.val, T):
                outs |= set(walk(p.val))
        for kind, w, a, b, F, span, fn in noted(R):
            if kind == 'panics':
                continue
            n += 1
            good = fits(kind, w, a, b, F)
            if not good and kind in ('saturating', 'wrapping'):
                op, ty = w
                hit = [t for t in outs if lossy(t) and a in t.args and (b is None or b in t.args)]
                good = not hit
            ck.ob('exact', '%s: %s %s in %s' % (label, kind, w if isinstance(w, str) else '/'.join(w), fn), good,
                  lambda: '%s %s of %s and %s is not established exact (%s)' % (kind, w, pp(a)[:200], pp(b)[:120] if b is not None else '-', at(span)),
                  'inexact:%s %s@%s' % (kind, w if isinstance(w, str) else '/'.join(w), fn))
        ck.ob('scanned', label, True)
    ck.need(n, 'potentially inexact operations')


def lossy(t):
    return t.op in LOSSY or t.op.startswith(('sat', 'wrap'))


# ------------------------------------------------------------------------------------------------ F02

PN = 'PreciseNumber::'


def pnhi(B, t, memo=None):
    """upper bound (exact rational) of an spl PreciseNumber term, u64 inputs"""
    if t.op == 'fld' and isinstance(t.args[0], T):
        return pnhi(B, t.args[0])
    if t.op != 'call' or not t.args[0].startswith(PN):
        return None
    m, a = t.args[0][len(PN):], t.args[1:]
    h = [pnhi(B, x) for x in a] if m != 'new' else []
    if m == 'new':
        x = B.of(a[0])[1]
        return None if x is None else Fraction(x)
    if not h or h[0] is None:
        return None
    if m in ('checked_add', 'checked_mul'):
        return None if h[1] is None else h[0] + h[1] if m == 'checked_add' else h[0] * h[1] + 1
    if m == 'checked_sub':
        return h[0]
    if m in ('floor', 'ceiling'):
        return h[0] + 1
    if m == 'sqrt':
        return Fraction(isqrt(int(h[0])) + 2)     # trusted: spl-math's root is within one of the exact root
    if m == 'checked_div':
        lo = pnlo(B, a[1])
        return h[0] / lo + 1
    return None


def pnlo(B, t):
    while t.op == 'fld' and isinstance(t.args[0], T):
        t = t.args[0]
    if t.op == 'call' and t.args[0] == PN + 'new':
        return Fraction(max(1, B.of(t.args[1])[0]))        # the divisor of a successful division is nonzero
    return Fraction(1, 10 ** 12)


@prop('F02')
def f02(ck):
    ck.rule('no-abort', 'no path of a trading instruction, a curve calculation, a fee calculation, the fixed-point type or the decoding of pool data ends in a panic '
            '(unwrap of nothing, index or slice out of range, division by zero, failed assertion)')
    ck.rule('narrowing', 'each operation of a 256-bit number that panics when its result does not fit is established to fit under the facts of its path')
    ck.rule('spl-narrowing', 'each conversion of an spl-math PreciseNumber to an integer, which panics above 128 bits, is established to fit for balances, supplies and '
            'amounts of 64 bits (the widths token accounts hold)')
    n = 0
    for label, R in bases(ck) + handlers(ck, False):
        ck.ob('no-abort', label, not R.aborts, lambda: 'panics at %s' % ', '.join(sorted({at(p.span) for p in R.aborts}))[:300], 'abort@' + label)
        for kind, w, a, b, F, span, fn in noted(R):
            if kind == 'panics' or isinstance(w, tuple) and w[0] in ('div', 'rem'):
                n += 1
                ck.ob('narrowing', '%s: %s in %s' % (label, w, fn), fits(kind, w, a, b, F),
                      lambda: 'may panic: %s of %s %s (%s)' % (w, pp(a)[:300], pp(b)[:100] if b is not None else '', at(span)), 'narrowing:%s@%s' % (w, fn))
    ck.need(n, 'panicking operations')
    k = 0
    for c in CURVES:
        if c == 'StableCurve':
            continue
        for m in METHODS:
            try:
                r = method(ck, c, m, DFS)
            except Anchor:
                continue
            seen = set()
            for p in r.paths:
                B = Bound(p.facts, U64)
                ts = list(walk(p.val)) if isinstance(p.val, T) else []
                for t, _ in p.facts.literals():
                    ts += list(walk(t))
                for t in ts:
                    if t.op == 'call' and t.args[0] == PN + 'to_imprecise' and t not in seen:
                        seen.add(t)
                        k += 1
                        h = pnhi(B, t.args[1])
                        ck.ob('spl-narrowing', '%s.%s' % (c, m), h is not None and h + 1 < 2 ** 128, lambda: 'to_imprecise may exceed 128 bits: %s' % pp(t.args[1])[:300],
                              'spl-narrowing@%s.%s' % (c, m))
    ck.need(k, 'conversions of spl PreciseNumber')


# ------------------------------------------------------------------------------------------------ F07

def A(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = T('add', r, x)
    return r


def M(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = T('mul', r, x)
    return r


class Both:
    """equality in either normal form: with and without the constants the facts establish"""

    def __init__(self, F):
        self.a, self.b = Norm(F), Norm(None)

    def eq(self, x, y):
        return self.b.eq(x, y) or self.a.eq(x, y)


class Loops:
    """loop-carried values of an analysed root: value before the loop and after one more iteration"""

    def __init__(self, R):
        self.entry, self.steps, self.iters = {}, {}, {}
        for fn, bb, hv, F, ent in R.it.cut:
            n = max([0] + [iters(ent, h, v) for h, v in hv.items()])
            for h, v in hv.items():
                if v is None:
                    continue
                if h.args[1] in ent:
                    self.entry[h] = ent[h.args[1]]
                self.steps.setdefault(h, []).append((v, F))
                self.iters[h] = n

    def carried(self, h, entry, step, N):
        """h starts at `entry` and every iteration maps it to step(h)"""
        return h in self.entry and N.eq(self.entry[h], entry) and self.steps.get(h) and all(N.eq(v, step(h)) or Norm(F).eq(v, step(h)) for v, F in self.steps[h])


def iters(ent, h, v):
    """number of iterations a counter or range loop makes at least, 0 if unknown"""
    e = ent.get(h.args[1])
    if e is not None and isagg(e, 'Range') and v is not None and v.op == 'adv':
        a, b = fields(e)
        if a.op == 'c' and b.op == 'c':
            return b.args[0] - a.args[0]
    return 0


def iterate(t, entry, step, L, N, F):
    """t results from iterating step from entry until it repeats or the iterations run out"""
    if N.eq(t, entry) and (N.eq(step(entry), entry) or F.eq(t, step(entry)) or eqfact(N, F, entry, step(entry))):
        return True
    hs = [h for h in L.entry if h in set(walk(t)) or F.eq(h, t)]
    for h in hs:
        if L.carried(h, entry, step, N):
            if t is h or F.eq(t, h):
                return True
            if N.eq(t, step(h)) and eqfact(N, F, h, step(h)):
                return True
    return N.eq(t, step(entry)) and eqfact(N, F, entry, step(entry))


def eqfact(N, F, a, b):
    if F.eq(a, b):
        return True
    for t, tr in F.literals():
        if tr and t.op == 'eq':
            x, y = t.args
            if N.eq(x, a) and N.eq(y, b) or N.eq(x, b) and N.eq(y, a):
                return True
    return False


def is_inv(t, lev, a, b, L, F):
    """t is the stable invariant of balances a, b as computed by iteration"""
    N = Both(F)
    s = A(a, b)
    if t.op == 'c':
        return t.args[0] == 0 and (F.eq(binop('add', a, b), C(0)) or N.eq(s, C(0)))

    def step(d):
        for x, y in ((a, b), (b, a)):
            dp = T('div', M(T('div', M(d, d), A(M(C(2), x), C(1))), d), A(M(C(2), y), C(1)))
            r = T('div', M(A(M(lev, s), M(C(2), dp)), d), A(M(T('sub', lev, C(1)), d), M(C(3), dp)))
            if (a, b, d) not in orient:
                orient[(a, b, d)] = r
                alt[(a, b, d)] = []
            alt[(a, b, d)].append(r)
        return alt[(a, b, d)][pick[0]]
    orient, alt = {}, {}
    for k in (0, 1):
        pick = [k]
        if iterate(t, s, step, L, N, F):
            return True
    return False


def is_out(t, lev, x, D, L, F):
    """t is the destination balance on the curve of invariant D for source balance x, as computed by iteration"""
    N = Both(F)
    c = T('div', M(D, D, D), M(C(4), x, lev))
    b = A(x, T('div', D, lev))

    def step(y):
        return T('div', A(M(y, y), c), T('sub', A(M(C(2), y), b), D))
    return iterate(t, D, step, L, N, F)


@prop('F03')
def f03(ck):
    ck.rule('value', 'the value a curve reports for balances a, b is sqrt(a * b) for the constant product curve, sqrt(a * (b + offset)) for the offset curve, '
            'floor((a + price * b) / 2) for the constant price curve (each half rounded down where the sum could overflow) and the iterated invariant D for the stable curve')
    P = ck.prog()
    for c in ('ConstantProductCurve', 'OffsetCurve', 'ConstantPriceCurve'):
        r = calc(ck, c, 'normalized_value')
        ck.need(len(r.ok), 'success paths of the value of %s' % c)
        slf, a, b = r.args
        for p in r.ok:
            R = Real(p.facts)
            S = Spec(R)
            if c == 'ConstantPriceCurve':
                value(ck, 'value', c, p, R, payload(p), S.div(S.add(a, S.mul(b, fld(slf, P.fidx(c, 'token_b_price')))), 2), ('=', 'dn'), 1)
            else:
                bb = b if c == 'ConstantProductCurve' else binop('add', b, fld(slf, P.fidx(c, 'token_b_offset')))
                value(ck, 'value', c, p, R, payload(p), S.sqrt(S.mul(a, bb)), ('=',), 0)
    c = 'StableCurve'
    r = calc(ck, c, 'normalized_value', [])
    ck.need(len(r.ok), 'success paths of the value of %s' % c)
    slf, a, b = r.args
    lev = binop('mul', fld(slf, P.fidx(c, 'amp')), C(2))
    L = Loops(r)
    for h, n in L.iters.items():
        ck.ob('iterations', h.args[0], n >= 32 or n == 0, lambda: 'only %d iterations' % n, 'iterations@' + c)
    for p in r.ok:
        v = payload(p)
        n = v.args[0].args[1] if v.op == 'fld' and v.args[0].op == 'call' and v.args[0].args[0] == 'PreciseNumber::new' else None
        ck.ob('value', c, n is not None and is_inv(n, lev, a, b, L, p.facts), lambda: 'reports %s' % pp(v)[:300], 'value@' + c)


@prop('F07')
def f07(ck):
    ck.rule('invariant', 'with leverage n * amp (n = 2), the invariant D of balances a, b is 0 for empty balances and otherwise the result of iterating '
            'D <- (L * S + 2 * P) * D / ((L - 1) * D + 3 * P), P = D * D / (2a + 1) * D / (2b + 1), from S = a + b until it repeats or at least 32 iterations are made')
    ck.rule('swap', 'a swap charges exactly the offered amount and pays balance - y, where y results from iterating y <- (y * y + c) / (2y + b - D) from D, '
            'c = D^3 / (4 * x * L), b = x + D / L, x = source balance + offered amount, D the invariant before the swap')
    ck.rule('one-sided', 'a one-sided deposit mints floor((D1 - D0) * supply / D0), a one-sided withdrawal burns ceil((D0 - D1) * supply / D0); nothing for nothing')
    ck.rule('shares', 'pool tokens are exchanged for the proportional share of each balance: rounded up (or to nothing) when depositing, down when withdrawing')
    ck.rule('iterations', 'the iterations are bounded by at least 32 rounds')
    P = ck.prog()
    c = 'StableCurve'
    r = calc(ck, c, 'swap_without_fees', [])
    ck.need(len(r.ok), 'success paths of the stable swap')
    slf, x, s, d, td = r.args
    lev = binop('mul', fld(slf, P.fidx('StableCurve', 'amp')), C(2))
    L = Loops(r)
    for h, n in L.iters.items():
        ck.ob('iterations', h.args[0], n >= 32 or n == 0, lambda: 'only %d iterations' % n, 'iterations@' + c)
    for p in r.ok:
        F, N = p.facts, Both(p.facts)
        src, dst = res(P, payload(p))
        ck.ob('swap', c + ' paid', N.eq(src, x), lambda: 'charged %s' % pp(src)[:200], 'stable-paid')
        pool = {t for t in walk(dst)} | {C(0)}
        for h in list(pool):
            if h in L.entry:
                pool |= set(walk(L.entry[h]))
        ys = [t for t in pool if N.eq(dst, T('sub', d, t))]
        ds = [t for t in pool | set(L.entry) | {binop('add', s, d)} if is_inv(t, lev, s, d, L, F)]
        x2 = binop('add', s, x)
        good = any(is_out(y, lev, x2, D, L, F) for y in ys for D in ds)
        ck.ob('invariant', c + ' swap', bool(ds), lambda: 'no invariant of the balances before the swap in %s' % pp(dst)[:300], 'stable-invariant@swap')
        ck.ob('swap', c + ' received', good, lambda: 'received %s' % pp(dst)[:400], 'stable-received')
    for m in ('deposit_single_token_type', 'withdraw_single_token_type_exact_out'):
        r = calc(ck, c, m, [])
        ck.need(len(r.ok), 'success paths of stable ' + m)
        slf, x, a, b, sup, td = r.args
        lev = binop('mul', fld(slf, P.fidx('StableCurve', 'amp')), C(2))
        L = Loops(r)
        dep = m.startswith('deposit')
        for p in r.ok:
            F, N = p.facts, Both(p.facts)
            t = payload(p)
            if F.eq(x, C(0)):
                ck.ob('one-sided', c + ' nothing', N.eq(t, C(0)), lambda: 'an amount of zero is priced %s' % pp(t)[:200], 'stable-zero@' + m)
                continue
            v = F.variant(td)
            ck.ob('one-sided', c + ' ' + m, v in ('AtoB', 'BtoA'), 'direction not distinguished', 'stable-case@' + m)
            bal, oth = (a, b) if v == 'AtoB' else (b, a)
            upd = binop('add', bal, x) if dep else binop('sub', bal, x)
            D0, D1 = T('param', 'D0'), T('param', 'D1')
            memo = {}

            def name(u):
                if u.op == 'param' or u.op == 'c' and u.args[0] != 0:
                    return None
                if u not in memo:
                    memo[u] = None
                    if u.op in ('div', 'add', 'havoc', 'c'):
                        if is_inv(u, lev, a, b, L, F):
                            memo[u] = D0
                        elif is_inv(u, lev, upd, oth, L, F):
                            memo[u] = D1
                return memo[u]
            t2 = news(t, name)
            R = Real(F)
            S = Spec(R)
            num = S.sub(D1, D0) if dep else S.sub(D0, D1)
            value(ck, 'one-sided', '%s %s %s' % (c, m, v), p, R, t2, S.div(S.mul(sup, num), D0), ('=', 'dn') if dep else ('=', 'up'), 1)
    cp_pool_tokens(ck, 'shares', c)


def news(t, name):
    """replace the arguments of PreciseNumber::new that `name` recognises"""
    memo = {}

    def go(u):
        if not isinstance(u, T):
            return u
        if u in memo:
            return memo[u]
        if u.op == 'call' and u.args[0] == PN + 'new':
            n = name(u.args[1])
            r = T('call', u.args[0], n) if n is not None else u
        else:
            args = tuple(go(x) for x in u.args)
            r = rebuild(u.op, args) if args != u.args else u
        memo[u] = r
        return r
    return go(t)


# ------------------------------------------------------------------------------------------------ I01

def invariant(t, hv):
    return not any(x in hv for x in walk(t))


def measures(c):
    """progress measures a loop iteration satisfies: [(kind, havoc term)]"""
    fn, bb, hv, F, ent = c
    N = Norm(F)
    out = set()
    lits = F.literals()
    for h, v in hv.items():
        if v is None or v is h:
            continue
        e = ent.get(h.args[1])
        if v.op == 'adv' and e is not None and e.op == 'agg' and e.args[0] in ('Range', 'RangeInclusive', 'iter', 'array'):
            out.add(('iterator', h))
            continue
        if isagg(v, 'iter') and fields(v)[1].op == 'c' and fields(v)[1].args[0] > 0:
            out.add(('iterator', h))
            continue
        d = N.diff(v, h)
        if set(d) == {()} and d[()] >= 1:
            for t, tr in lits:
                if t.op == 'lt':
                    lo, hi = t.args if tr else (t.args[1], t.args[0])     # lo < hi, or lo <= hi
                    p = N.diff(lo, h)
                    if set(p) <= {()} and invariant(hi, hv):
                        out.add(('counter', h))
                if t.op == 'eq' and not tr and d[()] == 1 and e is not None and e.op == 'c':
                    for x, y in (t.args, t.args[::-1]):
                        if y.op == 'c' and x in (h, v) and e.args[0] <= y.args[0]:
                            out.add(('counter', h))
        if set(d) == {()} and d[()] <= -1:
            k = C(-d[()])
            if N.ge(h, k) or d[()] == -1 and (F.ne(h, C(0)) or N.gt0(h)):
                out.add(('countdown', h))
        if F.decide(mk_lt(v, h)) is True or any(t.op == 'lt' and tr and t.args[1] is h and N.eq(t.args[0], v) for t, tr in lits):
            out.add(('decreasing', h))
        if v.op in ('div', 'shr') and v.args[0] is h and v.args[1].op == 'c' and v.args[1].args[0] >= (2 if v.op == 'div' else 1) and N.gt0(h):
            out.add(('decreasing', h))
    return out


def callees(P, f):
    parse_body(f)
    out = set()
    for b in f.blocks:
        s, t, sp = f.blocks[b]
        if t[0] == 'call' and isinstance(t[2], str):
            out.add(canon_call(t[2]))
    return out


def callgraph(P):
    """edges among the functions of the repository"""
    impl = {}
    for c in P.by_canon:
        if c.startswith('<') and ' as ' in c and '>::' in c:
            tr, m = c[1:].split(' as ', 1)[1].split('>::', 1)
            impl.setdefault((tr, m), set()).add(c)
    g = {}
    for c, l in P.by_canon.items():
        es = set()
        for f in l:
            try:
                cs = callees(P, f)
            except Exception:
                continue
            for k in cs:
                if k.startswith('<dyn ') and ' as ' in k:
                    tr, m = k[1:].split(' as ', 1)[1].split('>::', 1)
                    es |= impl.get((tr, m), set())
                r = P.resolve(k)
                if r is not None:
                    es.add(r.canon)
        g[c] = es
    for c in P.by_canon:                       # a closure runs inside its definer
        if '::{closure' in c:
            g.setdefault(c.rsplit('::{closure', 1)[0], set()).add(c)
    return g


def cycles(g):
    idx, low, st, on, out, n = {}, {}, [], set(), [], [0]

    def go(v):
        work = [(v, iter(sorted(g.get(v, ()))))]
        idx[v] = low[v] = n[0]
        n[0] += 1
        st.append(v)
        on.add(v)
        while work:
            u, it = work[-1]
            for w in it:
                if w not in idx:
                    idx[w] = low[w] = n[0]
                    n[0] += 1
                    st.append(w)
                    on.add(w)
                    work.append((w, iter(sorted(g.get(w, ())))))
                    break
                if w in on:
                    low[u] = min(low[u], idx[w])
            else:
                work.pop()
                if work:
                    low[work[-1][0]] = min(low[work[-1][0]], low[u])
                if low[u] == idx[u]:
                    comp = []
                    while True:
                        w = st.pop()
                        on.discard(w)
                        comp.append(w)
                        if w == u:
                            break
                    if len(comp) > 1 or u in g.get(u, ()):
                        out.append(sorted(comp))
    for v in sorted(g):
        if v not in idx:
            go(v)
    return out


@prop('I01')
def i01(ck):
    ck.rule('progress', 'each loop reached from an instruction, a curve, a fee or the decoding of pool data either is unrolled completely over constants, or every iteration '
            'of it advances one finite iterator, moves one counter towards a bound that does not change in the loop, or strictly decreases one unsigned value')
    ck.rule('no-recursion', 'the call graph of the repository\'s functions, with every implementation of a trait as a callee of its dynamic calls, has no cycle')
    n = 0
    loops = {}
    for label, R in bases(ck) + handlers(ck) + [('dispatch', ck.root('dispatch', opaque=OPAQUE + list(ENTRY.values())))]:
        ck.ob('progress', label + ' analysed', True)
        g = {}
        for c in R.it.cut:
            g.setdefault((c[0], c[1], frozenset(c[2])), []).append(c)
        for (fn, bb, _), cs in g.items():
            ms = None
            for c in cs:
                m = measures(c)
                ms = m if ms is None else ms & m
            n += 1
            kinds = sorted({k for k, _ in ms})
            loops.setdefault(fn, set()).update(kinds)
            ck.ob('progress', '%s: loop in %s' % (label, fn), bool(ms), lambda: 'no measure found that bounds the loop (bb%s of %s)' % (bb, fn), 'unbounded@' + fn)
    ck.need(n, 'loops that are not unrolled')
    P = ck.prog()
    g = callgraph(P)
    cy = cycles(g)
    for c in cy:
        ck.ob('no-recursion', ' -> '.join(c)[:200], False, 'recursive functions: %s' % ', '.join(c)[:400], 'recursion:' + c[0])
    ck.ob('no-recursion', '%d functions, %d calls' % (len(g), sum(map(len, g.values()))), not cy)
    ck.need(sum(map(len, g.values())), 'calls between functions of the repository')
    ck.notes.append('loops: %s' % {k: sorted(v) for k, v in loops.items()})


# ------------------------------------------------------------------------------------------------ G05

D = 'DFSPreciseNumber'
UNIT = 10 ** 18


def same_bool(F, val, cond):
    """val and cond have the same truth value on this path"""
    if isinstance(val, T) and val.op == 'b':
        return F.decide(cond) is bool(val.args[0])
    r = []
    for tr in (True, False):
        G = F.copy()
        if not G.assume(val, tr):
            continue
        r.append(G.decide(cond) is tr)
    return bool(r) and all(r)


def refusal(p):
    """the path returns None because a checked operation overflowed or a divisor is zero"""
    for t, tr in p.facts.literals():
        if tr and t.op == 'is' and t.args[1] in ('None', 'Err') and t.args[0].op.startswith('chk_'):
            return True
    return False


def half(t):
    """2 * half(t) for a shift count t that is even by construction"""
    while t.op == 'trunc':
        t = t.args[1]
    return t


def evenhalf(k, e):
    """e = k / 2 and k is even"""
    k, e = half(k), half(e)
    N = Norm(None)
    if k.op == 'sub' and k.args[1].op == 'rem' and k.args[1].args[1] is C(2) and N.eq(k.args[1].args[0], k.args[0]):
        if e.op == 'div' and e.args[1] is C(2) and (N.eq(half(e.args[0]), k) or N.eq(half(e.args[0]), k.args[0])):
            return True
    if k.op == 'mul' and C(2) in k.args and e.op == 'div' and e.args[1] is C(2):
        for x in k.args:
            if x.op == 'div' and x.args[1] is C(2) and N.eq(x.args[0], half(e.args[0])):
                return True
    if k.op == 'mul' and any(x.op == 'c' and x.args[0] % 2 == 0 for x in k.args):
        if e.op == 'div' and e.args[1] is C(2) and N.eq(half(e.args[0]), k):
            return True
    return N.eq(binop_('mul', C(2), e), k)


def binop_(op, a, b):
    return T(op, a, b)


def int_root(z, L, F, up):
    """(arg, y): z is the integer square root of arg, rounded down, or up when `up`"""
    N = Both(F)
    ys = [z]
    if z.op == 'add':
        ys += [a for a, b in (z.args, z.args[::-1]) if b is C(1)]
    for y in ys:
        cand = []
        if y in L.entry:
            x = L.entry[y]
            zs = {v for v, _ in L.steps[y]}
            if len(zs) != 1:
                continue
            h = zs.pop()
            nx = lambda q: T('div', A(T('div', x, q), q), C(2))
            if h not in L.entry or not all(N.eq(v, nx(h)) for v, _ in L.steps[h]):
                continue
            if not (N.eq(L.entry[h], T('div', A(x, C(1)), C(2))) or N.eq(L.entry[h], T('div', x, C(2))) and overflowed(F, x)):
                continue
            if F.decide(mk_lt(h, y)) is not False:
                continue
            cand.append(x)
        else:
            if F.decide(mk_lt(binop('div', binop('add', y, C(1)), C(2)), y)) is False or F.decide(mk_lt(binop('div', y, C(2)), y)) is False and overflowed(F, y):
                cand.append(y)
        for x in cand:
            less = F.decide(mk_lt(binop('mul', y, y), x))
            if z is y and (up is False or less is False):
                return x, y
            if z is not y and up is True and less is True:
                return x, y
    return None


def overflowed(F, x):
    return any(tr and t.op == 'is' and t.args[1] == 'None' and t.args[0].op == 'chk_add' and x in t.args[0].args for t, tr in F.literals())


@prop('G05')
def g05(ck):
    ck.rule('primitive', 'each fixed-point operation returns, on each success path, exactly the specified integer expression of the operands (unit 1e-18): sums and differences exact, '
            'products and quotients rounded to nearest, floor, ceiling and conversions to the specified integer')
    ck.rule('refuses', 'an operation returns nothing only because an intermediate result overflows 256 bits (128 bits for the conversion to an integer) or a divisor is zero')
    ck.rule('compare', 'each comparison has the truth value of the comparison of the represented numbers')
    ck.rule('root', 'sqrt_u64 scales the number by an even power of two to 63 or 64 significant bits, takes the integer root by a decreasing Newton iteration from (x + 1) / 2, and scales back by '
            'half of that power; every truncation is rounded up exactly when the caller asks for it and something was cut off')
    P = ck.prog()

    def run(m, opaque=()):
        r = ck.root('%s::%s' % (D, m), opaque=list(opaque))
        ck.need(len(r.ok), 'success paths of %s' % m)
        return r

    def val(t):
        return fld(t, 0)
    one, h = C(UNIT), C(UNIT // 2)
    both = {
        'checked_add': lambda F, a, b: [A(a, b)],
        'checked_sub': lambda F, a, b: [T('sub', a, b)],
        'checked_div': lambda F, a, b: [T('div', A(M(a, one), c), b) for c in (h, T('div', b, C(2)))] + (
            [M(T('div', A(a, h), b), one)] if over(F, 'chk_mul', a, one) else []),
        'checked_mul': lambda F, a, b: [T('div', A(M(a, b), h), one)] + (
            [M(T('div', x, one), y) for x, y in ((a, b), (b, a)) if F.ge(x, y)] + [M(T('div', binop('max', a, b), one), binop('min', a, b))] if over(F, 'chk_mul', a, b) else []),
    }
    for m, spec in both.items():
        r = run(m)
        a, b = val(r.args[0]), val(r.args[1])
        for p in r.ok:
            N = Both(p.facts)
            t = val(payload(p))
            ck.ob('primitive', m, any(N.eq(t, s) for s in spec(p.facts, a, b)), lambda: '%s returns %s' % (m, pp(t)[:300]), 'primitive:' + m)
        for p in r.bad:
            F = p.facts
            ok = refusal(p) or m == 'checked_sub' and F.decide(mk_lt(a, b)) is True or m == 'checked_div' and (
                F.eq(b, C(0)) or F.eq(r.args[1], agg(D, None, C(0))))
            ck.ob('refuses', m, ok, lambda: '%s refuses without an overflow' % m, 'refuses:' + m)
    r = run('unsigned_sub')
    a, b = val(r.args[0]), val(r.args[1])
    for p in r.ok:
        N, F = Both(p.facts), p.facts
        t, s = fld(p.val, 0), fld(p.val, 1)
        neg = F.decide(mk_lt(a, b))
        good = neg is not None and N.eq(val(t), T('sub', b, a) if neg else T('sub', a, b)) and (bool(s.args[0]) if s.op == 'b' else F.decide(s)) is neg
        ck.ob('primitive', 'unsigned_sub', good, lambda: 'unsigned_sub returns %s' % pp(p.val)[:200], 'primitive:unsigned_sub')
    uni = {
        'new': (lambda x: M(x, one), lambda r: r.args[0], val),
        'floor': (lambda x: M(T('div', x, one), one), lambda r: val(r.args[0]), val),
        'ceiling': (lambda x: M(T('div', A(x, C(UNIT - 1)), one), one), lambda r: val(r.args[0]), val),
        'to_imprecise': (lambda x: T('div', A(x, h), one), lambda r: val(r.args[0]), lambda t: t),
    }
    for m, (spec, arg, out) in uni.items():
        r = run(m)
        x = arg(r)
        for p in r.ok:
            N, F = Both(p.facts), p.facts
            t = out(payload(p))
            alts = [spec(x)]
            if m == 'ceiling':
                fl = M(T('div', x, one), one)
                rem = T('rem', x, one)
                if F.ne(rem, C(0)) or F.decide(mk_lt(C(0), rem)):
                    alts.append(A(fl, one))
                if F.eq(rem, C(0)):
                    alts += [fl, x]
            ck.ob('primitive', m, any(N.eq(t, s) for s in alts), lambda: '%s returns %s' % (m, pp(t)[:300]), 'primitive:' + m)
        for p in r.bad:
            top = m == 'to_imprecise' and any(t.op == 'lt' and (tr and t.args[0].op == 'c' and t.args[0].args[0] == 2 ** 128 - 1 or not tr and t.args[1].op == 'c' and
                                                             t.args[1].args[0] == 2 ** 128) for t, tr in p.facts.literals())
            top = top or m == 'to_imprecise' and any(tr and t.op == 'is' and t.args[1] in ('Err', 'None') and t.args[0].op == 'conv' for t, tr in p.facts.literals())
            ck.ob('refuses', m, refusal(p) or top, lambda: '%s refuses without an overflow' % m, 'refuses:' + m)
    for m, cond in (('less_than', lambda a, b: mk_lt(a, b)), ('greater_than', lambda a, b: mk_lt(b, a)), ('less_than_or_equal', lambda a, b: mk_not(mk_lt(b, a))),
                    ('greater_than_or_equal', lambda a, b: mk_not(mk_lt(a, b)))):
        r = run(m)
        a, b = val(r.args[0]), val(r.args[1])
        for p in r.ok:
            ck.ob('compare', m, same_bool(p.facts, p.val, cond(a, b)), lambda: '%s is %s' % (m, pp(p.val)[:200]), 'compare:' + m)
    # square root
    ops = ['%s::%s' % (D, m) for m in ('checked_mul', 'checked_div', 'checked_add', 'checked_sub', 'new', 'less_than', 'greater_than')]
    r = run('sqrt_u64', ops)
    L = Loops(r)
    v, flag = val(r.args[0]), r.args[1]
    nsmall = nlarge = 0
    for p in r.ok:
        F, N = p.facts, Both(p.facts)
        t = payload(p)
        up = F.decide(flag)
        why = 'not recognised'
        good = False
        lits = F.literals()
        nums = [fields(u)[0] for u in walk(t) if isagg(u, D) and fields(u)[0].op != 'c']
        fs = [u for u in walk(t) if u.op == 'pow' and u.args[0] is C(2)]
        if up is None and not any(flag in set(walk(l)) for l, _ in lits):
            up = None
        for z in nums:
            ir = int_root(z, L, F, up)
            if ir is None:
                why = 'the root %s is not rounded as requested or not the integer root of its argument' % pp(z)[:200]
                continue
            arg = ir[0]
            for f in fs:
                R = Real(F)
                S = Spec(R)
                unit = agg(D, None, C(1))
                base = core_sh(arg)
                if base is None:
                    why = 'the argument %s of the root is not the scaled number' % pp(arg)[:200]
                    continue
                kind, x, k, plus = base
                if x is not v or not evenhalf(k, f.args[1]):
                    why = 'scaled by %s, scaled back by %s' % (pp(k)[:100], pp(f)[:100])
                    continue
                zt = agg(D, None, z)
                B = Bound(F)
                bits = T('call', 'U256::bits', v)
                if kind == 'shl':
                    slack = minus(B.N.poly(T('sub', C(63), bits)), B.lin(k, False))
                else:
                    slack = minus(B.lin(k, True), B.N.poly(T('sub', bits, C(63))))
                if not all(m == () and n <= 0 for m, n in slack.items()):
                    why = 'fewer than 63 significant bits are kept by the shift %s' % pp(k)[:100]
                    continue
                if kind == 'shl':
                    want = S.div(S.mul(zt, C(10 ** 9)), f)
                    got = R.of(t)
                    plus1 = S.add(want, unit)
                    cut = [tr for l, tr in lits if l.op == 'call' and l.args[0].endswith('::less_than') or l.op == 'lt']
                    if R.same(got, want):
                        bumped = False
                    elif R.same(got, plus1):
                        bumped = True
                    else:
                        why = 'scaled back wrongly: %s' % pp(t)[:200]
                        continue
                    inexact = any(tr and l.op == 'call' and l.args[0] == D + '::less_than' for l, tr in lits) or any(tr and l.op == 'call' and l.args[0] == D + '::greater_than' for l, tr in lits)
                    exact = any(not tr and l.op == 'call' and l.args[0] in (D + '::less_than', D + '::greater_than') for l, tr in lits)
                    good = bumped and up is True and inexact or not bumped and (up is False or up is True and exact)
                    why = 'division remainder is not rounded as requested'
                    nsmall += good
                else:
                    want = S.mul(S.mul(zt, C(10 ** 9)), f)
                    got = R.of(t)
                    if not R.same(got, want):
                        why = 'scaled back wrongly: %s' % pp(t)[:200]
                        continue
                    sh = T('shr', v, k)
                    cutoff = F.decide(mk_lt(T('shl', sh, k), v))
                    good = plus and up is True and cutoff is True or not plus and (up is False or up is True and cutoff is False)
                    why = 'bits shifted out are not rounded as requested'
                    nlarge += good
                if good:
                    break
            if good:
                break
        ck.ob('root', 'sqrt_u64', good, lambda: 'sqrt_u64: ' + why, 'root:sqrt_u64 ' + ('up' if up else 'down'))
    ck.need(nsmall, 'roots of numbers of at most 64 bits')
    ck.need(nlarge, 'roots of numbers above 64 bits')


def minus(p, q):
    r = dict(p)
    for m, c in q.items():
        r[m] = r.get(m, 0) - c
    return {m: c for m, c in r.items() if c}


def core_sh(arg):
    """(shl|shr, value, count, rounded up) of a scaled argument"""
    plus = False
    if arg.op == 'min':
        o = [x for x in arg.args if x.op != 'c']
        if len(o) != 1 or C(U64) not in arg.args:
            return None
        arg = o[0]
    if arg.op == 'add' and C(1) in arg.args:
        arg = [x for x in arg.args if x is not C(1)][0]
        plus = True
    if arg.op in ('shl', 'shr') and not (plus and arg.op == 'shl'):
        return arg.op, arg.args[0], arg.args[1], plus
    return None


def over(F, op, a, b):
    return any(tr and t.op == 'is' and t.args[1] == 'None' and t.args[0].op == op and a in t.args[0].args and b in t.args[0].args for t, tr in F.literals())
