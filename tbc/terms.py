"""Hash-consed value terms and path facts (must-equalities, orderings, enum variants)."""


class T:
    __slots__ = ('op', 'args', 'id', '_s')
    table = {}
    n = 0

    def __new__(cls, op, *args):
        k = (op,) + args
        t = cls.table.get(k)
        if t is None:
            t = object.__new__(cls)
            t.op, t.args = op, args
            T.n += 1
            t.id = T.n
            t._s = None
            cls.table[k] = t
        return t

    def __repr__(self):
        return pp(self)

    def __deepcopy__(self, m):
        return self


def C(n):
    return T('c', n)


TRUE, FALSE = T('b', 1), T('b', 0)
UNIT = T('agg', 'tuple', None)


def B(x):
    return TRUE if x else FALSE


def agg(name, variant, *f):
    return T('agg', name, variant, *f)


def isagg(t, name=None, variant=None):
    return t.op == 'agg' and (name is None or t.args[0] == name) and (variant is None or t.args[1] == variant)


def fields(t):
    return t.args[2:]


def some(x):
    return agg('Option', 'Some', x)


NONE = agg('Option', 'None')


def ok(x):
    return agg('Result', 'Ok', x)


def err(x):
    return agg('Result', 'Err', x)


def symenum(kind, key, good=None, bad=None):
    return T('sym', kind, key, good, bad)


GOOD = {'Option': 'Some', 'Result': 'Ok', 'ControlFlow': 'Continue', 'COption': 'Some'}
BAD = {'Option': 'None', 'Result': 'Err', 'ControlFlow': 'Break', 'COption': 'None'}


def fld(t, n, variant=None):
    if t.op == 'agg':
        return t.args[2 + n]
    if t.op == 'sym':
        if variant in ('Some', 'Ok', 'Continue') and t.args[2] is not None and n == 0:
            return t.args[2]
        if variant in ('Err', 'Break') and t.args[3] is not None and n == 0:
            return t.args[3]
        t = t.args[1]
    if t.op == 'dyn':
        return fld(t.args[0], n, variant)
    if t.op == 'upd':
        if t.args[1] == n:
            return t.args[3]
        return fld(t.args[0], n, variant)
    return T('fld', t, n, variant)


def setfld(t, n, variant, v):
    if t.op == 'agg':
        a = list(t.args)
        a[2 + n] = v
        return T('agg', *a)
    if t.op == 'upd' and t.args[1] == n:
        t = t.args[0]
    return T('upd', t, n, variant, v)


def idx(t, i):
    if t.op == 'view':
        return idx(t.args[0], t.args[1] + i)
    if t.op == 'updv':
        base, off, ln, v = t.args
        if ln is not None and off <= i < off + ln:
            return v if ln == 1 and v.op != 'agg' else idx(v, i - off)
        if i < off or (ln is not None and i >= off + ln):
            return idx(base, i)
    if t.op == 'rep':
        return t.args[0]
    if t.op == 'agg' and t.args[0] == 'array' and i < len(t.args) - 2:
        return t.args[2 + i]
    return T('idx', t, i)


def view(t, off, ln):
    if t.op == 'view':
        return view(t.args[0], t.args[1] + off, ln if ln is not None else (None if t.args[2] is None else t.args[2] - off))
    if off == 0 and ln is None:
        return t
    if t.op == 'bytes' and off == 0 and ln == 32:
        return t
    if t.op == 'lebytes' and off == 0 and ln == t.args[0]:
        return t
    if t.op == 'rep' and ln is not None:
        return T('rep', t.args[0], ln)
    if t.op == 'updv' and ln is not None:
        base, o, l, v = t.args
        if l is not None:
            if o == off and l == ln:
                return v
            if off >= o and off + ln <= o + l:
                return view(v, off - o, ln)
            if off + ln <= o or off >= o + l:
                return view(base, off, ln)
    if isagg(t, 'array'):
        fs = fields(t)
        if ln is None:
            ln = len(fs) - off
        if off + ln <= len(fs):
            return agg('array', None, *fs[off:off + ln])
    return T('view', t, off, ln)


def setview(t, off, ln, v):
    if t.op == 'view':
        return None
    if isagg(t, 'array') and ln == 1 and off < len(t.args) - 2:
        a = list(t.args)
        a[2 + off] = v
        return T('agg', *a)
    return T('updv', t, off, ln, v)


COMM = {'add', 'mul', 'max', 'min', 'and', 'or', 'eq', 'bxor'}


def binop(op, a, b):
    if a.op == 'c' and b.op == 'c':
        x, y = a.args[0], b.args[0]
        try:
            r = {'add': lambda: x + y, 'sub': lambda: x - y, 'mul': lambda: x * y, 'div': lambda: x // y,
                 'rem': lambda: x % y, 'max': lambda: max(x, y), 'min': lambda: min(x, y),
                 'shl': lambda: x << y, 'shr': lambda: x >> y, 'and': lambda: x & y, 'or': lambda: x | y,
                 'bxor': lambda: x ^ y, 'pow': lambda: x ** y}.get(op, lambda: None)()
            if r is not None and (op != 'sub' or r >= 0):
                return C(r)
        except ZeroDivisionError:
            pass
    z = C(0)
    if op == 'add':
        if a is z:
            return b
        if b is z:
            return a
    if op in ('sub', 'shl', 'shr') and b is z:
        return a
    if op == 'mul':
        if a is z or b is z:
            return z
        if a is C(1):
            return b
        if b is C(1):
            return a
    if op == 'div' and b is C(1):
        return a
    if op == 'sub' and b.op == 'rem' and b.args[0] is a:
        return binop('mul', b.args[1], T('div', a, b.args[1]))
    if op == 'shl' and a is C(1):
        return T('pow', C(2), b)
    if op == 'sub' and b.op == 'mul':           # x - (x / y) * y
        for q, y in (b.args, b.args[::-1]):
            if q.op == 'div' and q.args[0] is a and q.args[1] is y:
                return T('rem', a, y)
    if op in ('max', 'min') and a is b:
        return a
    if op == 'shr' and b.op == 'c' and b.args[0] < 128:
        return binop('div', a, C(1 << b.args[0]))
    if op in COMM and a.id > b.id:
        a, b = b, a
    return T(op, a, b)


def mk_not(a):
    if a.op == 'b':
        return B(not a.args[0])
    if a.op == 'not':
        return a.args[0]
    return T('not', a)


def mk_and(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    return binop('and', a, b) if a is not b else a


def mk_eq(a, b):
    if a is b:
        return TRUE
    if a.op in ('c', 'str') and b.op == a.op:
        return FALSE
    if a.op == 'b' and b.op == 'b':
        return B(a is b)
    for x, y in ((a, b), (b, a)):
        if y.op == 'b':
            return x if y is TRUE else mk_not(x)
    if a.op == 'agg' and b.op == 'agg':
        if a.args[1] != b.args[1] or len(a.args) != len(b.args):
            return FALSE
        r = TRUE
        for x, y in zip(fields(a), fields(b)):
            r = mk_and(r, mk_eq(x, y))
        return r
    if a.op == 'bytes' and b.op == 'bytes':
        return mk_eq(a.args[0], b.args[0])
    for x, y in ((a, b), (b, a)):
        if x.op == 'bitor' and y.op == 'c' and y.args[0] == 0:
            return mk_and(mk_eq(x.args[0], y), mk_eq(x.args[1], y))
    return binop('eq', a, b)


def mk_lt(a, b):
    if a is b:
        return FALSE
    if a.op == 'c' and b.op == 'c':
        return B(a.args[0] < b.args[0])
    if b is C(0):
        return FALSE
    if a is C(0):
        return mk_not(mk_eq(b, a))
    if b is C(1):
        return mk_eq(a, C(0))
    return T('lt', a, b)


ENUMV = {}      # enum name -> variants (of fieldless enums of the program), filled by mir.Program


class Facts:
    """Facts known on one path.  Every fact here was tested by a branch of the code (or follows
    from the success of a checked operation)."""
    __slots__ = ('uf', 'neq', 'lts', 'nlt', 'bools', 'var', 'nvar', 'log')

    def __init__(self):
        self.uf, self.neq, self.lts, self.nlt = {}, set(), set(), set()
        self.bools, self.var, self.nvar, self.log = {}, {}, {}, ()

    def copy(self):
        f = Facts.__new__(Facts)
        f.uf, f.neq, f.lts, f.nlt = dict(self.uf), set(self.neq), set(self.lts), set(self.nlt)
        f.bools, f.var, f.nvar, f.log = dict(self.bools), dict(self.var), dict(self.nvar), self.log
        return f

    def find(self, t):
        u = self.uf
        while t in u:
            t = u[t]
        return t

    def cls(self, t):
        r = self.find(t)
        return [x for x in set(list(self.uf) + list(self.uf.values()) + [t]) if self.find(x) is r]

    def pair(self, s, a, b):
        if not s:
            return False
        ra, rb = self.find(a), self.find(b)
        for x, y in s:
            if self.find(x) is ra and self.find(y) is rb:
                return True
        return False

    def const(self, t):
        r = self.find(t)
        if r.op == 'c':
            return r.args[0]
        return None

    def bounds(self, t):
        """least and greatest value of t the comparisons with constants leave"""
        r = self.find(t)
        if r.op == 'c':
            return r.args[0], r.args[0]
        lo, hi = 0, None
        for s, strict in ((self.lts, 1), (self.nlt, 0)):
            for x, y in s:
                if not strict:
                    x, y = y, x                 # x <= y
                if y.op == 'c' and self.find(x) is r:
                    h = y.args[0] - strict
                    hi = h if hi is None else min(hi, h)
                elif x.op == 'c' and self.find(y) is r:
                    lo = max(lo, x.args[0] + strict)
        no = set()
        for x, y in self.neq:
            if y.op != 'c':
                x, y = y, x
            if y.op == 'c' and self.find(x) is r:
                no.add(y.args[0])
        while lo in no:
            lo += 1
        while hi in no and hi > lo:
            hi -= 1
        return lo, hi

    def decide(self, c):
        if c.op == 'b':
            return bool(c.args[0])
        if c.op == 'not':
            r = self.decide(c.args[0])
            return None if r is None else not r
        if c.op == 'and':
            x, y = self.decide(c.args[0]), self.decide(c.args[1])
            if x is False or y is False:
                return False
            return True if x and y else None
        if c.op == 'or':
            x, y = self.decide(c.args[0]), self.decide(c.args[1])
            if x or y:
                return True
            return False if x is False and y is False else None
        if c.op == 'eq':
            a, b = c.args
            ra, rb = self.find(a), self.find(b)
            if ra is rb:
                return True
            if ra.op == 'c' and rb.op == 'c':
                return False
            if self.pair(self.neq, a, b) or self.pair(self.neq, b, a) or self.pair(self.lts, a, b) or self.pair(self.lts, b, a):
                return False
            if (ra.op == 'c' or rb.op == 'c') and (self.lts or self.nlt) and isinstance((ra if ra.op == 'c' else rb).args[0], int):
                k, x = (ra, b) if ra.op == 'c' else (rb, a)
                lo, hi = self.bounds(x)
                if k.args[0] < lo or hi is not None and k.args[0] > hi:
                    return False
                if lo == hi == k.args[0]:
                    return True
            if ra.op == 'agg' and rb.op == 'agg':
                d = mk_eq(ra, rb)
                return self.decide(d) if d is not c else None
            for x, y in ((ra, rb), (rb, ra)):
                if x is C(0) and self.pair(self.nlt, x, y):
                    return True
                if x.op == 'agg' and x.args[1] is not None and y.op != 'agg':
                    v = self.variant(y)
                    if v is not None:
                        if v != x.args[1]:
                            return False
                        ds = [self.decide(mk_eq(f, fld(y, i, v))) for i, f in enumerate(fields(x))]
                        if False in ds:
                            return False
                        if None not in ds:
                            return True
            return None
        if c.op == 'lt':
            a, b = c.args
            if self.pair(self.lts, a, b):
                return True
            ra, rb = self.find(a), self.find(b)
            if ra is rb:
                return False
            if ra.op == 'c' and rb.op == 'c':
                return ra.args[0] < rb.args[0]
            if self.pair(self.nlt, a, b) or self.pair(self.lts, b, a):
                return False
            if rb is C(0):
                return False
            if self.pair(self.nlt, b, a) and (self.pair(self.neq, a, b) or self.pair(self.neq, b, a)):
                return True
            if ra is C(0) and (self.pair(self.neq, a, b) or self.pair(self.neq, b, a)):
                return True
            if ra.op == 'c' or rb.op == 'c':
                (la, ha), (lb, hb) = self.bounds(a), self.bounds(b)
                if ha is not None and ha < lb:
                    return True
                if hb is not None and la >= hb:
                    return False
            return None
        return self.bools.get(c)

    def variant(self, t):
        if t.op == 'agg':
            return t.args[1]
        if t.op == 'sym':
            t = t.args[1]
        v = self.var.get(t)
        if v is not None:
            return v
        r = self.find(t)
        if r is not t:
            if r.op == 'agg':
                return r.args[1]
            for k, v in self.var.items():
                if self.find(k) is r:
                    return v
        return None

    def assume(self, c, truth):
        """returns False when contradictory"""
        if c.op == 'b':
            return bool(c.args[0]) == truth
        if c.op == 'not':
            return self.assume(c.args[0], not truth)
        d = self.decide(c)
        if d is not None:
            return d == truth
        self.log = (self.log, (c, truth))
        if c.op == 'and' and truth:
            return self.assume(c.args[0], True) and self.assume(c.args[1], True)
        if c.op == 'or' and not truth:
            return self.assume(c.args[0], False) and self.assume(c.args[1], False)
        if c.op == 'eq':
            a, b = c.args
            if truth:
                ra, rb = self.find(a), self.find(b)
                if rb.op in ('c', 'agg'):
                    self.uf[ra] = rb
                else:
                    self.uf[rb] = ra
                for x, y in ((a, b), (b, a)):
                    if x.op == 'c' and x.args[0] == 0 and y.op == 'add':      # sums here are exact: no wrapping add goes unreported (F01)
                        for z in y.args:
                            if not self.assume(mk_eq(z, x), True):
                                return False
                    if x.op == 'c' and y.op == 'discr':
                        for v, d in ENUMV.get(str(y.args[1])) or ():
                            if d == x.args[0] and not self.assume_var(y.args[0], v):
                                return False
                    if x.op == 'agg' and y.op != 'agg' and x.args[1] is not None:
                        if not self.assume_var(y, x.args[1]):
                            return False
                        for i, f in enumerate(fields(x)):
                            if not self.assume(mk_eq(f, fld(y, i, x.args[1])), True):
                                return False
            else:
                self.neq.add((a, b))
                for x, y in ((a, b), (b, a)):
                    if x.op == 'agg' and x.args[0] in ('Option', 'COption') and x.args[1] == 'None' and y.op != 'agg':
                        return self.assume_var(y, 'Some')
                    vs = None
                    if x.op == 'agg' and len(x.args) == 2 and x.args[1] is not None and y.op != 'agg':
                        vs, n = ENUMV.get(x.args[0]), x.args[1]
                    elif x.op == 'c' and y.op == 'discr':
                        vs = ENUMV.get(str(y.args[1]))
                        n = dict((d, v) for v, d in vs or ()).get(x.args[0])
                        y = y.args[0]
                    if vs and n is not None:
                        y = y.args[1] if y.op == 'sym' else y
                        if not self.exclude_var(y, [n]):
                            return False
                        left = [v for v, _ in vs if v not in self.nvar.get(y, ())]
                        if len(left) < 2:
                            return bool(left) and self.assume_var(y, left[0])
                        continue
                    if x.op == 'agg' and x.args[1] == 'Some' and y.op != 'agg' and self.variant(y) == 'Some':
                        return self.assume(mk_eq(x.args[2], fld(y, 0, 'Some')), False)
            return True
        if c.op == 'lt':
            (self.lts if truth else self.nlt).add(c.args)
            return True
        self.bools[c] = truth
        return True

    def assume_var(self, t, v):
        if t.op == 'agg':
            return t.args[1] == v
        if t.op == 'sym':
            t = t.args[1]
        cur = self.variant(t)
        if cur is not None:
            return cur == v
        if v in self.nvar.get(t, ()):
            return False
        self.var[t] = v
        self.log = (self.log, (T('is', t, v), True))
        # what success of a checked operation tells (the fixed-point subtraction: decided by G05)
        if t.op == 'call' and t.args[0].endswith('DFSPreciseNumber::checked_sub') and len(t.args) == 3 and v in ('Some', 'None'):
            return self.assume(mk_lt(fld(t.args[1], 0), fld(t.args[2], 0)), v == 'None')
        if v == 'Some':
            if t.op == 'chk_sub':
                return self.assume(mk_lt(t.args[1], t.args[2]), False)
            if t.op in ('chk_div', 'chk_rem'):
                return self.assume(mk_eq(t.args[2], C(0)), False)
        elif v == 'None':
            if t.op == 'chk_sub':
                return self.assume(mk_lt(t.args[1], t.args[2]), True)
        return True

    def exclude_var(self, t, vs):
        if t.op == 'sym':
            t = t.args[1]
        cur = self.variant(t)
        if cur is not None:
            return cur not in vs
        self.nvar[t] = self.nvar.get(t, frozenset()) | frozenset(vs)
        return True

    # ---- queries
    def eq(self, a, b):
        return self.decide(mk_eq(a, b)) is True

    def ne(self, a, b):
        return self.decide(mk_eq(a, b)) is False

    def ge(self, a, b):
        """a >= b"""
        return self.decide(mk_lt(a, b)) is False or self.decide(mk_lt(b, a)) is True

    def literals(self):
        out = []
        l = self.log
        while l:
            l, x = l
            out.append(x)
        return out[::-1]


def walk(t, seen=None):
    if seen is None:
        seen = set()
    if t in seen:
        return
    seen.add(t)
    yield t
    for a in t.args:
        if isinstance(a, T):
            yield from walk(a, seen)


def subst(t, fn, memo=None):
    """bottom-up rewrite"""
    if memo is None:
        memo = {}
    if t in memo:
        return memo[t]
    args = tuple(subst(a, fn, memo) if isinstance(a, T) else a for a in t.args)
    r = rebuild(t.op, args)
    r2 = fn(r)
    r = r if r2 is None else r2
    memo[t] = r
    return r


def rebuild(op, args):
    if op in ('add', 'sub', 'mul', 'div', 'rem', 'max', 'min', 'shl', 'shr', 'or', 'bxor', 'pow'):
        return binop(op, *args)
    if op == 'and':
        return mk_and(*args)
    if op == 'eq':
        return mk_eq(*args)
    if op == 'lt':
        return mk_lt(*args)
    if op == 'not':
        return mk_not(*args)
    if op == 'fld':
        return fld(*args)
    if op == 'idx':
        return idx(*args)
    if op == 'view':
        return view(*args)
    return T(op, *args)


def pp(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if t._s is not None:
        return t._s
    if d > 14:
        return '..'
    a = [pp(x, d + 1) for x in t.args]
    if t.op in ('c', 'str', 'param', 'b'):
        s = a[0] if t.op != 'b' else ('true' if t.args[0] else 'false')
    elif t.op == 'agg':
        n, v = t.args[0], t.args[1]
        s = (n if n not in ('tuple', 'array') else '') + ('::' + v if v else '') + (
            '[%s]' if n == 'array' else '(%s)') % ','.join(a[2:])
    elif t.op == 'fld':
        s = '%s.%s%s' % (a[0], a[1], '' if t.args[2] is None else '<%s>' % a[2])
    elif t.op == 'idx':
        s = '%s[%s]' % (a[0], a[1])
    elif t.op == 'call':
        s = '%s(%s)' % (a[0], ', '.join(a[1:]))
    elif t.op == 'sym':
        s = '?' + a[1]
    else:
        s = '%s(%s)' % (t.op, ', '.join(a))
    if len(s) > 400:
        s = s[:300] + '...'
    if d == 0:
        t._s = s
    return s
