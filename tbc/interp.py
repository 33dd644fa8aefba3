"""Path-sensitive abstract interpretation of MIR bodies.

Every feasible control path of a root function is followed through the crate's own code (calls and
closures are inlined), values are kept as symbolic terms, and each branch taken is recorded as a
fact.  Nothing is executed and no solver is used: a branch is pruned only when the facts already
recorded on the path decide it (equality classes, orderings, enum variants).  Loops whose trip count
is a small constant are unrolled, all others are closed by forgetting every variable the loop
assigns."""
import re, sys
from .mir import parse_body, specialize, put_types, canon_call, last_ident, match_close, split_as, split_top, drop_turbofish, strip_life
from .terms import *

sys.setrecursionlimit(20000)

WIDTH = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'U256': 256, 'i8': 8, 'i16': 16,
         'i32': 32, 'i64': 64, 'i128': 128, 'isize': 64, 'bool': 1, 'InnerUint': 256}
ENUMS = {'Option': [('None', 0), ('Some', 1)], 'Result': [('Ok', 0), ('Err', 1)],
         'ControlFlow': [('Continue', 0), ('Break', 1)], 'COption': [('None', 0), ('Some', 1)],
         'Ordering': [('Less', 255), ('Equal', 0), ('Greater', 1)]}
BOOLOPS = {'b', 'eq', 'lt', 'not', 'and', 'or'}


class Frame:
    __slots__ = ('fn', 'bb', 'uid', 'ctx', 'post', 'visits', 'citer', 'inl', 'pc')

    def __init__(self):
        self.pc = 0

    def copy(self):
        f = Frame.__new__(Frame)
        f.fn, f.bb, f.uid, f.ctx, f.post = self.fn, self.bb, self.uid, self.ctx, self.post
        f.visits = dict(self.visits)
        f.citer = self.citer
        f.pc = self.pc
        return f


class Ctx:
    """where a call's result goes"""
    __slots__ = ('dest', 'tgt', 'span', 'ty', 'raw', 'fn', 'argtys')

    def __init__(self, **k):
        for a in self.__slots__:
            setattr(self, a, k.get(a))


class St:
    __slots__ = ('cells', 'frames', 'facts', 'mem', 'eff', 'epoch', 'heap')

    def copy(self):
        s = St.__new__(St)
        s.cells = {k: dict(v) for k, v in self.cells.items()}
        s.frames = [f.copy() for f in self.frames]
        s.facts = self.facts.copy()
        s.mem, s.eff, s.epoch, s.heap = self.mem, self.eff, self.epoch, self.heap
        return s

    def effects(self):
        out = []
        e = self.eff
        while e:
            e, x = e
            out.append(x)
        return out[::-1]


class Path:
    __slots__ = ('kind', 'val', 'facts', 'effects', 'span', 'mem', 'why', 'stack')

    def __init__(self, kind, val, st, span, why=None):
        self.kind, self.val, self.facts, self.effects = kind, val, st.facts, st.effects()
        self.span, self.mem, self.why = span, st.mem, why


class Abort(Exception):
    pass


class Unsupported(Exception):
    pass


def pointee(ty):
    ty = ty.strip()
    for p in ('&mut ', '&', '*const ', '*mut '):
        if ty.startswith(p):
            t = ty[len(p):].strip()
            if t.startswith("'"):
                t = t.split(' ', 1)[1] if ' ' in t else t
                if t.startswith('mut '):
                    t = t[4:]
            return t
    m = re.match(r'(?:std::boxed::)?Box<(.*)>$', ty)
    if m:
        return split_top(m.group(1))[0]
    return ty


def elem(ty):
    m = re.match(r'\[(.*)\]$', ty.strip())
    if m:
        return split_top(m.group(1), ';')[0]
    return '?'


def isnum(ty):
    return last_ident(ty) in WIDTH


def cases(c, truth):
    """conjunctions whose disjunction is `c is truth`, without overlap"""
    if c.op == 'not':
        return cases(c.args[0], not truth)
    if c.op == 'or' and truth or c.op == 'and' and not truth:
        a, b = c.args
        return [x for x in cases(a, truth)] + [x + y for x in cases(a, not truth) for y in cases(b, truth)]
    if c.op in ('or', 'and'):
        return [x + y for x in cases(c.args[0], truth) for y in cases(c.args[1], truth)]
    return [[(c, truth)]]


class Interp:
    def __init__(self, prog, opaque=(), max_paths=60000, max_steps=4000000, inline_dyn=True):
        self.P = prog
        self.opaque = opaque
        self.paths = []
        self.log = []          # arithmetic obligations
        self.uid = 0
        self.consts = {}
        self.max_paths, self.max_steps = max_paths, max_steps
        self.steps = 0
        self.inlined = set()
        self.opaque_seen = {}
        self.loops = {}
        self.exits = {}
        self.leaves = set()
        self.closures = None
        self.cut = []
        self.sites = set()
        self.curve = None      # type of the pool's curve, when taken as known

    # ------------------------------------------------------------ entry
    def run(self, fn, args, facts=None, mem=()):
        st = St()
        st.cells, st.frames, st.facts, st.mem, st.eff, st.epoch, st.heap = {}, [], facts or Facts(), tuple(mem), None, 0, 0
        self.push(st, fn, args, None, None)
        self.paths = []
        work = [st]
        while work:
            s = work.pop()
            try:
                work.extend(self.advance(s))
            except Abort:
                pass
            if len(self.paths) > self.max_paths or self.steps > self.max_steps:
                raise Unsupported('path/step budget exceeded in %s' % fn.canon)
        return self.paths

    def finish(self, kind, val, st, span, why=None):
        self.paths.append(Path(kind, val, st, span, why))

    def push(self, st, fn, args, ctx, post):
        if ctx is not None and '::<' in ctx.raw:
            fn = specialize(fn, ctx.raw)
        if ctx is not None and ctx.raw.startswith('<') and not fn.canon.startswith('<'):
            k = match_close(ctx.raw, 0)         # a trait's default method, for a known type
            ty = split_as(ctx.raw[1:k])
            if len(ty) == 2 and 'Self' not in ty[0] and 'dyn ' not in ty[0] and last_ident(ty[1]) + '::' in fn.canon + '::':
                fn = put_types(fn, (('Self', ty[0]),))
        if '{closure#' in fn.name:              # a closure shares the type parameters of the function around it
            for g in reversed(st.frames):
                if g.fn.tys and fn.name.startswith(g.fn.name + '::'):
                    fn = put_types(fn, g.fn.tys)
                    break
        parse_body(fn)
        self.inlined.add(fn.canon)
        f = Frame()
        self.uid += 1
        f.fn, f.bb, f.uid, f.ctx, f.post, f.visits, f.citer = fn, 0, self.uid, ctx, post, {}, frozenset()
        loc = {}
        if len(args) != len(fn.args):
            # closures called with a tupled argument list
            if len(args) == 2 and isagg(args[1], 'tuple') and len(fn.args) == 1 + len(fields(args[1])):
                args = [args[0]] + list(fields(args[1]))
            else:
                raise Unsupported('arity %s %d/%d' % (fn.canon, len(args), len(fn.args)))
        for l, v in zip(fn.args, args):
            loc[l] = v
        st.cells[f.uid] = loc
        st.frames.append(f)
        if len(st.frames) > 60:
            raise Unsupported('recursion in %s' % fn.canon)
        return f

    def span(self, st):
        f = st.frames[-1]
        return f.fn.blocks[f.bb][2] if f.bb in f.fn.blocks else None

    def stack(self, st, span):
        return tuple([(f.fn.canon, f.ctx.span if f.ctx else None) for f in st.frames]) + (('', span),)

    # ------------------------------------------------------------ places
    def pty(self, fn, place):
        ty = fn.locals.get(place[0], '?')
        for p in place[1]:
            if p[0] == 'deref':
                ty = pointee(ty)
            elif p[0] == 'fld':
                ty = p[2]
            elif p[0] in ('index', 'cidx'):
                ty = elem(ty)
        return ty

    def opty(self, fn, op):
        if op[0] == 'pl':
            return self.pty(fn, op[1])
        m = re.match(r'^-?\d+_(\w+)$', op[1])
        if m:
            return m.group(1)
        if op[1] in ('true', 'false'):
            return 'bool'
        if op[1].startswith('@'):
            f = self.const_fn(op[1][1:], fn)
            if f:
                return f.ret
        return '?'

    def loc(self, st, f, place):
        """-> ('cell', uid, local, proj) or ('val', term)"""
        cur = ('cell', f.uid, place[0], ())
        ty = f.fn.locals.get(place[0], '?')
        variant = None
        for p in place[1]:
            k = p[0]
            if k == 'deref':
                cur = self.deref(st, cur)
                ty = pointee(ty)
                continue
            if k == 'down':
                variant = p[1]
                continue
            if k == 'fld':
                if 'Unique<' in p[2] or 'NonNull<' in p[2] or p[2].startswith('*const'):
                    v = self.read(st, cur)
                    if v.op in ('ptr', 'dyn') or 'Box<' in ty or 'Unique<' in ty or 'NonNull<' in ty:
                        ty = p[2]
                        variant = None
                        continue
                step = ('f', p[1], variant)
                variant = None
                ty = p[2]
            elif k == 'index':
                i = self.read(st, ('cell', f.uid, p[1], ()))
                step = ('i', i.args[0]) if i.op == 'c' else ('I', i)
                ty = elem(ty)
            elif k == 'cidx':
                if p[2]:
                    v = self.read(st, cur)
                    if isagg(v, 'array'):
                        step = ('i', len(fields(v)) - p[1])
                    else:
                        step = ('I', T('fromend', p[1]))
                else:
                    step = ('i', p[1])
                ty = elem(ty)
            elif k == 'sub':
                v = self.read(st, cur)
                if p[3]:
                    ln = None
                    if isagg(v, 'array'):
                        ln = len(fields(v)) - p[2] - p[1]
                    step = ('v', p[1], ln)
                else:
                    step = ('v', p[1], p[2] - p[1])
            cur = self.step(st, cur, step)
        return cur

    def step(self, st, cur, step):
        if cur[0] == 'val':
            return ('val', self.proj(cur[1], step))
        # through a dyn/ptr value stored in the cell there is always an explicit deref
        return ('cell', cur[1], cur[2], cur[3] + (step,))

    def deref(self, st, cur):
        v = self.read(st, cur)
        while v.op == 'dyn':
            v = v.args[0]
        if v.op == 'ptr':
            return ('cell',) + v.args
        return ('val', v)

    def proj(self, v, s):
        while v.op == 'dyn':
            v = v.args[0]
        if s[0] == 'f':
            return fld(v, s[1], s[2])
        if s[0] == 'i':
            return idx(v, s[1])
        if s[0] == 'I':
            return T('idx', v, s[1])
        return view(v, s[1], s[2])

    def read(self, st, loc):
        if loc[0] == 'val':
            t = loc[1]
            if st.mem:
                for m, val in reversed(st.mem):
                    if m is t:
                        return val
            return t
        c = st.cells.get(loc[1])
        if c is None or loc[2] not in c:
            return T('uninit', loc[1], loc[2])
        v = c[loc[2]]
        for s in loc[3]:
            if v.op == 'ptr':       # auto (raw pointer identity casts)
                v = self.read(st, ('cell',) + v.args)
            v = self.proj(v, s)
        if st.mem and loc[3] and v.op in ('fld', 'idx', 'view'):
            for m, val in reversed(st.mem):
                if m is v:
                    return val
        return v

    def write(self, st, loc, val, span=None):
        if loc[0] == 'val':
            st.mem = st.mem + ((loc[1], self.content(st, val)),)
            st.eff = (st.eff, ('store', loc[1], self.content(st, val), span))
            return
        c = st.cells.setdefault(loc[1], {})
        if not loc[3]:
            c[loc[2]] = val
            return
        c[loc[2]] = self.upd(c.get(loc[2], T('uninit', loc[1], loc[2])), loc[3], val)

    def upd(self, v, projs, val):
        s, rest = projs[0], projs[1:]
        while v.op == 'dyn':
            v = v.args[0]
        if rest:
            val = self.upd(self.proj(v, s), rest, val)
        if s[0] == 'f':
            return setfld(v, s[1], s[2], val)
        if s[0] == 'i':
            return setview(v, s[1], 1, val)
        if s[0] == 'v':
            return setview(v, s[1], s[2], val)
        return T('updx', v, s[1], val)

    def content(self, st, v, d=0):
        """resolve pointers inside a value"""
        if v.op == 'ptr':
            if d > 30:
                return T('deep')
            return self.content(st, self.read(st, ('cell',) + v.args), d + 1)
        if v.op == 'dyn':
            x = self.content(st, v.args[0], d + 1)
            return T('dyn', x, v.args[1])
        if v.op in ('agg', 'upd', 'updv', 'sym', 'rep', 'iter'):
            a = tuple(self.content(st, x, d + 1) if isinstance(x, T) else x for x in v.args)
            return T(v.op, *a) if a != v.args else v
        if st.mem and v.op in ('fld', 'idx', 'view'):
            for m, val in reversed(st.mem):
                if m is v:
                    return val
        return v

    def alloc(self, st, v):
        st.heap += 1
        k = st.heap
        st.cells.setdefault('heap', {})[k] = v
        return T('ptr', 'heap', k, ())

    # ------------------------------------------------------------ operands
    def operand(self, st, f, op):
        if op[0] == 'pl':
            return self.read(st, self.loc(st, f, op[1]))
        return self.const(op[1], f.fn)

    def const(self, s, fn):
        m = re.match(r'^(-?\d+)_(\w+)$', s)
        if m:
            return C(int(m.group(1)))
        if s == 'true':
            return TRUE
        if s == 'false':
            return FALSE
        if s == '()':
            return UNIT
        if s.startswith('"'):
            return T('str', s[1:-1])
        if s.startswith('b"'):
            try:
                bs = eval(s)
                return agg('array', None, *[C(x) for x in bs])
            except Exception:
                return T('str', s)
        if s.startswith('@'):
            return self.named(s[1:], fn)
        if s.startswith('ZeroSized: '):
            s = s[11:]
        if s.startswith('[closure@'):
            return T('agg', 'closure', s)
        m = re.match(r"^'(.)'$", s)
        if m:
            return C(ord(m.group(1)))
        # unit struct / enum constants or function items
        if re.match(r'^[\w:<>& \[\]{}#,]+$', s) and self.P.resolve(s):
            return T('fnitem', s)
        return T('const', s)

    MAXES = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64}

    def const_fn(self, name, fn):
        P = self.P
        segs = name.split('::')
        l = P.by_canon.get(name) or P.by_canon.get(canon_call(name))
        if not l and 'promoted[' in name:
            k = canon_call(name)
            l = P.by_canon.get(k) or P._suffix(k)
            if not l:
                base = canon_call(name.rsplit('::', 1)[0])
                g = P._lookup(base)
                if g:
                    l = P.by_canon.get(g.canon + '::' + segs[-1])
        if not l:
            last = segs[-1]
            cands = [c for c in P.suffix.get(last, []) if any(x.kind != 'fn' for x in P.by_canon[c])]
            if len(segs) >= 2:
                ty = segs[-2]
                if ty == 'Self':
                    m = re.match(r'^<(\w+) as|^(\w+)::', fn.canon)
                    ty = (m.group(1) or m.group(2)) if m else ty
                c2 = [c for c in cands if c.startswith('<%s as ' % ty) or c.split('::')[-2:-1] == [ty]]
                cands = c2 or ([c for c in cands if c == last or len(cands) == 1])
            if len(cands) > 1:
                # same module first
                mod = (fn.raw and fn.blocks and self.file_of(fn)) or None
                c2 = [c for c in cands if self.file_of(parse_body(P.by_canon[c][0])) == mod]
                cands = c2 or cands
            l = P.by_canon.get(cands[0]) if cands else None
        if not l:
            return None
        l = [x for x in l if x.kind != 'fn'] or l
        return l[0]

    def file_of(self, fn):
        return fn.file

    def named(self, name, fn):
        key = (name, fn.file if fn else None)
        if key in self.consts:
            return self.consts[key]
        segs = name.split('::')
        v = None
        if segs[-1] == 'MAX' and len(segs) >= 2 and segs[-2] in self.MAXES:
            v = C((1 << self.MAXES[segs[-2]]) - 1)
        elif segs[-1] == 'MIN' and len(segs) >= 2 and segs[-2] in self.MAXES:
            v = C(0)
        else:
            f = self.const_fn(name, fn)
            if f is not None:
                v = self.eval_const(f)
        if v is None:
            v = T('const', name)
        self.consts[key] = v
        return v

    def eval_const(self, f):
        it = Interp(self.P, opaque=())
        it.consts = self.consts
        try:
            ps = [p for p in it.run(f, []) if p.kind == 'ret']
        except Unsupported:
            return None
        if len(ps) != 1:
            return None
        return ps[0].val

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, f, rv, span, dty):
        k = rv[0]
        if k == 'use':
            return self.operand(st, f, rv[1])
        if k == 'ref':
            pl = rv[2]
            if pl[1] and pl[1][-1] == ('deref',):
                v = self.read(st, self.loc(st, f, (pl[0], pl[1][:-1])))
                if v.op != 'ptr' or True:
                    if v.op == 'agg' and v.args[0] not in ('closure',) and False:
                        pass
                    return v
            l = self.loc(st, f, pl)
            if l[0] == 'val':
                return self.read(st, l)
            return T('ptr', l[1], l[2], l[3])
        if k == 'bin':
            return self.binary(st, f, rv[1], self.operand(st, f, rv[2]), self.operand(st, f, rv[3]),
                               self.opty(f.fn, rv[2]), span)
        if k == 'un':
            v = self.operand(st, f, rv[2])
            if rv[1] == 'Not':
                if last_ident(self.opty(f.fn, rv[2])) == 'bool':
                    return mk_not(v)
                return T('bitnot', v)
            return T('neg', v)
        if k == 'len':
            return self.length(self.read(st, self.loc(st, f, rv[1])))
        if k == 'nullary':
            return T('nullary', rv[1], rv[2])
        if k == 'sbox':
            return self.operand(st, f, rv[1])
        if k == 'discr':
            l = self.loc(st, f, rv[1])
            v = self.read(st, l)
            ty = last_ident(self.pty(f.fn, rv[1]))
            return self.discr(st, v, ty)
        if k == 'repeat':
            v = self.operand(st, f, rv[1])
            m = re.match(r'^(?:const )?(\d+)(?:_usize)?$', rv[2].strip())
            if m and int(m.group(1)) <= 64:
                return agg('array', None, *[v] * int(m.group(1)))
            return T('rep', v, int(m.group(1)) if m else None)
        if k == 'agg':
            kind, path, names, ops = rv[1:]
            vs = [self.operand(st, f, o) for o in ops]
            if kind == 'closure':
                return T('agg', 'closure', path, *vs)
            if kind in ('tuple', 'array'):
                return agg(kind, None, *vs)
            p = drop_turbofish(strip_life(path))
            segs = p.split('::')
            last = re.sub(r'<.*', '', segs[-1])
            en = re.sub(r'<.*', '', segs[-2]) if len(segs) > 1 else None
            tyn = last_ident(dty)
            if tyn in ENUMS or tyn in self.P.enums:
                return agg(tyn, last, *vs)
            if en in ENUMS or en in self.P.enums:
                return agg(en, last, *vs)
            return agg(last, None, *vs)
        if k == 'cast':
            v = self.operand(st, f, rv[1])
            return self.cast(st, f, v, self.opty(f.fn, rv[1]), rv[2], rv[3], span)
        raise Unsupported('rvalue %r' % (rv,))

    def length(self, v):
        if isagg(v, 'array'):
            return C(len(fields(v)))
        if v.op == 'view' and v.args[2] is not None:
            return C(v.args[2])
        if v.op == 'rep' and v.args[1] is not None:
            return C(v.args[1])
        if v.op == 'updv':
            return self.length(v.args[0])
        if v.op == 'bytes':
            return C(32)
        if v.op == 'lebytes':
            return C(v.args[0])
        return T('len', v)

    def variants(self, ty):
        return ENUMS.get(ty) or self.P.enums.get(ty)

    def discr(self, st, v, ty):
        while v.op == 'dyn':
            v = v.args[0]
        if v.op == 'b':
            return C(v.args[0])
        vs = self.variants(ty)
        if vs is None and v.op == 'agg':
            vs = self.variants(v.args[0])
        if vs is None and v.op == 'sym':
            vs = self.variants(v.args[0])
            ty = v.args[0]
        if vs:
            cur = st.facts.variant(v)
            if cur is not None:
                for n, d in vs:
                    if n == cur:
                        return C(d)
        return T('discr', v.args[1] if v.op == 'sym' else v, ty)

    def boolcast(self, st, f, rv, k):
        """a number made of a condition: one state for each way the condition is decided"""
        v = self.operand(st, f, rv[1])
        if rv[3] != 'IntToInt' or v.op in ('b', 'c') or not (v.op in BOOLOPS or last_ident(self.opty(f.fn, rv[1])) == 'bool'):
            return None
        d = st.facts.decide(v)
        dest = f.fn.blocks[f.bb][0][k][0][1]
        out = []
        for t in (True, False):
            for case in [[]] if d is t else cases(v, t) if d is None else []:
                s2 = st.copy()
                f2 = s2.frames[-1]
                if all(s2.facts.assume(c, tr) for c, tr in case):
                    self.write(s2, self.loc(s2, f2, dest), C(int(t)), f.fn.blocks[f.bb][0][k][1])
                    f2.pc = k + 1
                    out.append(s2)
        return out

    def cast(self, st, f, v, fty, tty, kind, span):
        if kind == 'IntToInt':
            a, b = WIDTH.get(last_ident(fty)), WIDTH.get(last_ident(tty))
            if v.op == 'b':
                return C(v.args[0])
            if v.op == 'c':
                n = v.args[0]
                if b and not last_ident(tty).startswith('i') and not 0 <= n < (1 << b):
                    self.note('trunc', last_ident(tty), v, None, st, span)
                    return C(n % (1 << b))
                return v
            if v.op in BOOLOPS or last_ident(fty) == 'bool':
                return T('b2i', v)
            if v.op == 'discr':
                return v
            if a and b and b >= a and last_ident(fty)[0] == last_ident(tty)[0]:
                return v
            hi = st.facts.bounds(v)[1]
            if b and hi is not None and hi < 1 << b and not last_ident(fty).startswith('i') and not last_ident(tty).startswith('i'):
                return v                                     # tested to fit before
            self.note('trunc', last_ident(tty), v, None, st, span)
            return T('trunc', last_ident(tty), v)
        if kind == 'Pointer(Unsize)':
            if 'dyn ' in tty and not 'dyn ' in fty:
                return T('dyn', v, last_ident(pointee(fty)))
            return v
        if kind in ('PtrToPtr', 'Transmute'):
            m = re.match(r'^\*(?:const|mut) \[u8; (\d+)\]$', tty)
            if m:
                if v.op == 'ptr':
                    return self.ptrview(v, 0, int(m.group(1)))
                return view(v, 0, int(m.group(1)))
            return v
        if kind.startswith('Pointer('):
            return v
        return T('castx', kind, v)

    def ptrview(self, p, off, ln):
        c, l, pr = p.args
        if pr and pr[-1][0] == 'v':
            o, n = pr[-1][1], pr[-1][2]
            return T('ptr', c, l, pr[:-1] + (('v', o + off, ln if ln is not None else (None if n is None else n - off)),))
        return T('ptr', c, l, pr + (('v', off, ln),))

    def note(self, kind, w, a, b, st, span):
        self.log.append((kind, w, a, b, st.facts.copy(), span, st.frames[-1].fn.canon if st.frames else ''))

    def binary(self, st, f, op, a, b, ty, span):
        w = last_ident(ty)
        if op in ('Eq', 'Ne'):
            e = self.equal(st, a, b)
            return e if op == 'Eq' else mk_not(e)
        if op == 'Lt':
            return mk_lt(a, b)
        if op == 'Gt':
            return mk_lt(b, a)
        if op == 'Le':
            return mk_not(mk_lt(b, a))
        if op == 'Ge':
            return mk_not(mk_lt(a, b))
        if op == 'BitAnd' and w == 'bool':
            return mk_and(a, b)
        if op == 'BitOr' and w == 'bool':
            return mk_not(mk_and(mk_not(a), mk_not(b)))
        if op == 'BitXor' and w == 'bool':
            return mk_not(mk_eq(a, b))
        base = {'Add': 'add', 'Sub': 'sub', 'Mul': 'mul', 'CheckedAdd': 'add', 'CheckedSub': 'sub', 'CheckedMul': 'mul',
                'Div': 'div', 'Rem': 'rem', 'Shl': 'shl', 'Shr': 'shr', 'CheckedShl': 'shl', 'CheckedShr': 'shr',
                'BitAnd': 'and', 'BitOr': 'or', 'BitXor': 'bxor'}.get(op)
        if base is None:
            return T('bin', op, a, b)
        if base in ('and', 'or'):
            r = C(a.args[0] & b.args[0] if base == 'and' else a.args[0] | b.args[0]) if a.op == b.op == 'c' else T('bit' + base, a, b)
        else:
            r = binop(base, a, b)
        if base in ('add', 'sub', 'mul', 'shl', 'shr') and not (a.op == 'c' and b.op == 'c' and r.op == 'c' and r.args[0] < (1 << WIDTH.get(w, 64))):
            self.note('wrap', (base, w), a, b, st, span)
        if op.startswith('Checked'):
            return agg('tuple', None, r, T('ovf', base, w, a, b))
        return r

    def equal(self, st, a, b):
        return mk_eq(self.content(st, a), self.content(st, b))

    # ------------------------------------------------------------ execution
    def advance(self, st):
        """run one state until it forks or ends; returns successor states"""
        while True:
            self.steps += 1
            f = st.frames[-1]
            stmts, term, tspan = f.fn.blocks[f.bb]
            pc, f.pc = f.pc, 0
            for k in range(pc, len(stmts)):
                s, sp = stmts[k]
                if s[0] == 'assign':
                    dty = self.pty(f.fn, s[1])
                    if s[2][0] == 'cast':
                        fork = self.boolcast(st, f, s[2], k)
                        if fork is not None:
                            return fork
                    v = self.rvalue(st, f, s[2], sp, dty)
                    self.write(st, self.loc(st, f, s[1]), v, sp)
            k = term[0]
            if k == 'goto':
                if not self.jump(st, f, term[1]):
                    return []
                continue
            if k == 'drop':
                if not self.jump(st, f, term[2]):
                    return []
                continue
            if k == 'switch':
                r = self.switch(st, f, term, tspan)
                if len(r) != 1 or r[0] is not st:
                    return r
                continue
            if k == 'assert':
                v = self.operand(st, f, term[1])
                if v.op != 'ovf' and not term[3].strip().startswith('"misaligned'):
                    d = st.facts.decide(v)
                    if d is None:
                        if 'overflow' not in term[3]:
                            s2 = st.copy()
                            if s2.facts.assume(v, not term[2]):
                                self.finish('abort', None, s2, tspan, term[3])
                            st.facts.assume(v, term[2])
                    elif d != term[2]:
                        if 'overflow' not in term[3]:
                            self.finish('abort', None, st, tspan, term[3])
                            return []
                if not self.jump(st, f, term[4]):
                    return []
                continue
            if k == 'return':
                r = self.ret(st, f, tspan)
                if r is None:
                    continue
                return r
            if k == 'call':
                r = self.call(st, f, term, tspan)
                if r is None:
                    continue
                return r
            if k in ('unreachable', 'resume'):
                return []
            raise Unsupported('terminator %r' % (term,))

    def loopinfo(self, fn):
        li = self.loops.get(fn)
        if li is not None:
            return li
        succ = {}
        for b, (s, t, sp) in fn.blocks.items():
            succ[b] = succs(t)
        # dfs for back edges
        back = set()
        color = {}
        stack = [(0, iter(succ.get(0, [])))]
        color[0] = 1
        while stack:
            b, it = stack[-1]
            for n in it:
                if color.get(n) is None:
                    color[n] = 1
                    stack.append((n, iter(succ.get(n, []))))
                    break
                if color[n] == 1:
                    back.add((b, n))
            else:
                color[b] = 2
                stack.pop()
        heads = {}
        pred = {}
        for b, ss in succ.items():
            for n in ss:
                pred.setdefault(n, []).append(b)
        for b, h in back:
            body = heads.setdefault(h, {h})
            w = [b]
            while w:
                x = w.pop()
                if x in body:
                    continue
                body.add(x)
                w.extend(pred.get(x, []))
        assigned = {}
        for h, body in heads.items():
            a = set()
            for x in body:
                s, t, sp = fn.blocks[x]
                for q, _ in s:
                    if q[0] == 'assign':
                        a.add(q[1][0] if not (q[1][1] and q[1][1][0] == ('deref',)) else ('d', q[1][0]))
                        if q[2][0] == 'ref' and q[2][1] in ('mut', 'raw mut'):
                            a.add(q[2][2][0])
                if t[0] == 'call':
                    a.add(t[1][0])
            assigned[h] = a
        self.loops[fn] = li = (back, heads, assigned)
        self.leaves |= {(fn, h, x) for h, b in heads.items() for x in b if set(succ.get(x, [])) - b}
        self.exits[fn] = {x for b in heads.values() for x in b if set(succ.get(x, [])) - b}
        return li

    def jump(self, st, f, bb):
        back, heads, assigned = self.loopinfo(f.fn)
        if bb in heads:
            if (f.bb, bb) in back:
                f.visits[bb] = f.visits.get(bb, 1) + 1
                if bb in f.citer:
                    f.citer -= {bb}
                    if f.visits[bb] > 80:
                        raise Unsupported('loop bound in %s' % f.fn.canon)
                elif f.visits[bb] == 2:
                    self.havoc(st, f, bb, assigned[bb])
                else:
                    hv = f.visits.get(('hv', bb), {})
                    c = st.cells[f.uid]
                    self.cut.append((f.fn.canon, bb, {h: c.get(l) for l, h in hv.items()}, st.facts.copy(), f.visits.get(('in', bb), {})))
                    return False
            else:
                f.visits[bb] = 1
                f.citer -= {bb}
                c = st.cells[f.uid]
                f.visits[('in', bb)] = {l: c[l] for l in assigned[bb] if isinstance(l, int) and l in c}
        f.bb = bb
        return True

    def havoc(self, st, f, bb, locs):
        c = st.cells[f.uid]
        hv = f.visits[('hv', bb)] = {}
        for l in sorted(x for x in locs if isinstance(x, int)):
            if l in c:
                v = c[l]
                if v.op == 'ptr' or v.op == 'agg' and v.args[0] in ('closure',):
                    continue
                self.uid += 1
                if isagg(v, 'iter'):
                    hv[l] = T('havoc', f.fn.canon, l, self.uid)
                    c[l] = T('agg', 'iter', None, hv[l], C(0))
                elif l in f.fn.locals:
                    hv[l] = c[l] = T('havoc', f.fn.canon, l, self.uid)

    def mark(self, f, leaving=False):
        """the innermost loop around the current block makes a round of known number; False outside loops"""
        heads = self.loopinfo(f.fn)[1]
        hs = [h for h, body in heads.items() if f.bb in body and (not leaving or (f.fn, h, f.bb) in self.leaves)]
        if hs:
            f.citer |= {min(hs, key=lambda h: (len(heads[h]), h))}
        return bool(hs)

    def mark_round(self, st):
        for f in reversed(st.frames):
            if self.mark(f):
                return

    def counted(self, st, f, term):
        """a loop test between two small known numbers: follow the rounds one by one"""
        self.loopinfo(f.fn)
        if f.bb not in self.exits[f.fn] or term[1][0] != 'pl':
            return
        for s, _ in f.fn.blocks[f.bb][0]:
            if s[0] == 'assign' and s[1] == term[1][1] and s[2][0] == 'bin':
                xs = [self.operand(st, f, o) for o in s[2][2:4]]
                if all(x.op == 'c' for x in xs) and abs(xs[0].args[0] - xs[1].args[0]) <= 6:
                    self.mark(f, True)

    def switch(self, st, f, term, span):
        v = self.operand(st, f, term[1])
        ty = last_ident(self.opty(f.fn, term[1]))
        arms, other = term[2], term[3]
        self.sites.add((f.fn.canon, f.bb))
        if v.op in ('c', 'b'):
            self.counted(st, f, term)
            for k, bb in arms:
                if k == v.args[0]:
                    return [st] if self.jump(st, f, bb) else []
            return [st] if other is not None and self.jump(st, f, other) else []
        out = []
        if v.op in BOOLOPS or ty == 'bool':
            d = st.facts.decide(v)
            opts = []
            for k, bb in arms:
                opts.append((bool(k), bb))
            if other is not None:
                vals = {k for k, _ in opts}
                for t in (True, False):
                    if t not in vals:
                        opts.append((t, other))
            for t, bb in opts:
                if d is not None and d != t:
                    continue
                if d is not None:
                    if st.facts.assume(v, t) and self.jump(st, st.frames[-1], bb):
                        out.append(st)
                    continue
                for case in cases(v, t):
                    s2 = st.copy()
                    if all(s2.facts.assume(c, tr) for c, tr in case) and self.jump(s2, s2.frames[-1], bb):
                        out.append(s2)
            return out
        if v.op == 'discr':
            x, en = v.args
            vs = self.variants(en)
            if vs:
                known = {d: n for n, d in vs}
                for k, bb in arms:
                    if k in known:
                        s2 = st.copy()
                        if s2.facts.assume_var(x, known[k]) and self.jump(s2, s2.frames[-1], bb):
                            out.append(s2)
                rest = [n for n, d in vs if d not in {k for k, _ in arms}]
                if other is not None and rest:
                    s2 = st.copy()
                    okk = s2.facts.assume_var(x, rest[0]) if len(rest) == 1 else s2.facts.exclude_var(x, [known[k] for k, _ in arms if k in known])
                    if okk and self.jump(s2, s2.frames[-1], other):
                        out.append(s2)
                return out
        for k, bb in arms:
            s2 = st.copy()
            if s2.facts.assume(mk_eq(v, C(k)), True) and self.jump(s2, s2.frames[-1], bb):
                out.append(s2)
        if other is not None:
            s2 = st.copy()
            if all(s2.facts.assume(mk_eq(v, C(k)), False) for k, _ in arms) and self.jump(s2, s2.frames[-1], other):
                out.append(s2)
        return out

    def ret(self, st, f, span):
        v = st.cells[f.uid].get(0, UNIT)
        if f.fn.ret == '()':
            v = UNIT
        if len(st.frames) == 1:
            self.finish('ret', self.content(st, v), st, span)
            return []
        if v.op == 'ptr' and v.args[0] == f.uid or v.op == 'agg' and any(x.op == 'ptr' and x.args[0] == f.uid for x in walk(v)):
            v = self.content(st, v)
        st.frames.pop()
        del st.cells[f.uid]
        if f.post:
            return self.deliver(st, f.ctx, f.post(st, v))
        return self.deliver(st, f.ctx, [(st, v)])

    def deliver(self, st, ctx, outs):
        """outs: list of (state, value) results or of states that already continue elsewhere"""
        res = []
        for o in outs:
            if isinstance(o, St):
                res.append(o)
                continue
            s, v = o
            if ctx.tgt is None:
                self.finish('abort', None, s, ctx.span, 'diverges')
                continue
            self.write(s, ctx.dest, v, ctx.span)
            if self.jump(s, s.frames[-1], ctx.tgt):
                res.append(s)
        if len(res) == 1 and res[0] is st:
            return None
        return res

    # ------------------------------------------------------------ calls
    def call(self, st, f, term, span):
        raw, ops, tgt = term[2], term[3], term[4]
        args = [self.operand(st, f, o) for o in ops]
        ctx = Ctx(dest=self.loc(st, f, term[1]), tgt=tgt, span=span, ty=self.pty(f.fn, term[1]), raw=raw, fn=f.fn,
                  argtys=[self.opty(f.fn, o) for o in ops])
        m = re.match(r'^(?:move |copy )?(_\d+|\(\*_\d+\))$', raw)
        if m:                      # call through a function pointer / local
            from .mir import parse_place
            fv = self.read(st, self.loc(st, f, parse_place(m.group(1))))
            return self.deliver(st, ctx, self.invoke(st, fv, args, ctx, None))
        return self.deliver(st, ctx, self.dispatch(st, raw, args, ctx))

    def dispatch(self, st, raw, args, ctx, post=None):
        canon = canon_call(raw)
        m = re.match(r'^<.* as (?:Fn|FnMut|FnOnce)(?:<.*>)?>::call(?:_mut|_once)?$', canon)
        if m and len(args) == 2 and isagg(args[1], 'tuple'):
            return self.invoke(st, args[0], list(fields(args[1])), ctx, post)
        from . import models
        outs = models.apply(self, st, canon, raw, args, ctx)
        if outs is None:
            fn = self.target(st, canon, raw, args, ctx)
            if fn is not None and not self.is_opaque(fn.canon, canon):
                if canon.startswith('<dyn ') and args:
                    d = self.undyn(st, args[0], canon)
                    if d is not None:
                        args = [d.args[0]] + args[1:]
                self.push(st, fn, args, ctx, post)
                return [st]
            outs = self.opaque_call(st, (fn.canon if fn else canon), args, ctx)
        if post is None:
            return outs
        res = []
        for o in outs:
            if isinstance(o, St):
                raise Unsupported('post through model %s' % canon)
            res.extend(post(o[0], o[1]))
        return res

    def undyn(self, st, v, canon=''):
        n = 0
        while v.op == 'ptr' and n < 8:
            v = self.read(st, ('cell',) + v.args)
            n += 1
        if v.op != 'dyn' and self.curve and v.op != 'ptr' and canon.startswith('<dyn CurveCalculator as '):
            return T('dyn', v, self.curve)          # the pool's curve, taken to be of one type
        return v if v.op == 'dyn' else None

    def target(self, st, canon, raw, args, ctx):
        if canon.startswith('<dyn '):
            d = self.undyn(st, args[0], canon) if args else None
            if d is not None:
                ty = d.args[1]
                tr = split_as(canon[1:match_close(canon, 0)])[1]
                m = canon[match_close(canon, 0) + 3:]
                l = self.P.by_canon.get('<%s as %s>::%s' % (ty, tr, m)) or self.P.by_canon.get('%s::%s' % (tr, m)) or self.P._suffix('%s::%s' % (tr, m))
                return l[0] if l else None
            return None
        c = self.P.by_canon.get(canon)
        if c and len(c) > 1:
            want = strip_life(ctx.ty)
            for x in c:
                if strip_life(x.ret) == want:
                    return x
            want = last_ident(ctx.ty)
            for x in c:
                if last_ident(x.ret) == want and len(x.args) == len(args):
                    return x
        if c:
            return c[0]
        f = self.P.resolve(raw)
        if f is not None and f.kind == 'fn':
            l = self.P.by_canon.get(f.canon)
            if len(l) > 1:
                for x in l:
                    if strip_life(x.ret) == strip_life(ctx.ty):
                        return x
            return f
        return None

    def is_opaque(self, fcanon, canon):
        for o in self.opaque:
            if callable(o):
                if o(fcanon):
                    return True
            elif fcanon == o or fcanon.endswith('::' + o) or canon == o:
                return True
        return False

    def opaque_call(self, st, canon, args, ctx):
        cs = [self.content(st, a) for a in args]
        self.opaque_seen[canon] = self.opaque_seen.get(canon, 0) + 1
        key = T('call', canon, *cs)
        for i, (a, ty) in enumerate(zip(args, ctx.argtys)):
            if ty.startswith('&mut') and a.op == 'ptr':
                self.uid += 1
                self.write(st, ('cell',) + a.args, T('out', key, i), ctx.span)
                st.eff = (st.eff, ('opaque_mut', canon, cs[i], ctx.span, key))
            elif ty.startswith('&mut [u8'):
                st.eff = (st.eff, ('opaque_mut', canon, cs[i], ctx.span, key))
        return [(st, self.wrap(ctx.ty, key))]

    def wrap(self, ty, key, good=None, bad=None):
        k = last_ident(ty)
        if k in ('Option', 'Result', 'ControlFlow', 'COption'):
            return symenum(k, key, good, bad)
        return key

    def invoke(self, st, fv, args, ctx, post):
        """call a closure / fn item value with a list of arguments; post(st, ret) -> outs"""
        while fv.op == 'ptr' or fv.op == 'dyn' and isinstance(fv.args[0], T):
            fv = self.read(st, ('cell',) + fv.args) if fv.op == 'ptr' else fv.args[0]
        if fv.op == 'agg' and fv.args[0] == 'closure':
            fn = self.closure_fn(st, fv.args[1], ctx)
            parse_body(fn)
            a0 = fn.locals[fn.args[0]]
            self_v = self.alloc(st, fv) if a0.startswith('&') else fv
            self.push(st, fn, [self_v] + list(args), ctx, post)
            return [st]
        if fv.op in ('fnitem', 'const'):
            raw = fv.args[0]
            # enum/struct constructors used as functions
            c = Ctx(dest=ctx.dest, tgt=ctx.tgt, span=ctx.span, ty='?', raw=raw, fn=ctx.fn, argtys=['?'] * len(args))
            last = raw.split('::')[-1]
            if last in ('Some', 'Ok', 'Err'):
                v = agg({'Some': 'Option'}.get(last, 'Result'), last, *args)
                return post(st, v) if post else [(st, v)]
            t = self.P.resolve(raw)
            if t is not None:
                c.ty = t.ret
            return self.dispatch(st, raw, list(args), c, post)
        v = T('call', 'fnptr', fv, *[self.content(st, a) for a in args])
        return post(st, v) if post else [(st, v)]

    def closure_fn(self, st, path, ctx):
        if self.closures is None:
            self.closures = {}
            for x in self.P.items:
                if x.kind == 'fn' and '{closure#' in x.name and x.args:
                    t = x.locals[x.args[0]]
                    k = t[t.index('[closure@'):] if '[closure@' in t else t
                    self.closures.setdefault(k.strip(), []).append(x)
        l = self.closures.get(path.strip())
        if not l:
            raise Unsupported('closure %s' % path)
        if len(l) > 1:
            cur = st.frames[-1].fn.name
            l2 = [x for x in l if x.name.startswith(cur + '::{closure')]
            l = l2 or l
        return l[0]

    # force an enum value to a concrete variant: [(state, agg)]
    def force(self, st, v, kind):
        while v.op in ('ptr', 'dyn'):
            v = self.read(st, ('cell',) + v.args) if v.op == 'ptr' else v.args[0]
        if v.op == 'agg' and v.args[0] == kind:
            return [(st, v)]
        key = v.args[1] if v.op == 'sym' else v
        if v.op != 'sym':
            v = symenum(kind, key)
        cur = st.facts.variant(key)
        out = []
        vs = [n for n, _ in ENUMS[kind]]
        good, bad = GOOD[kind], BAD[kind]
        for n in (good, bad):
            if cur is not None and cur != n:
                continue
            s2 = st if cur is not None else st.copy()
            if cur is None and not s2.facts.assume_var(key, n):
                continue
            if n in ('None',):
                out.append((s2, agg(kind, n)))
            else:
                out.append((s2, agg(kind, n, fld(v, 0, n))))
        return out


def succs(t):
    k = t[0]
    if k == 'goto':
        return [t[1]]
    if k == 'switch':
        return [b for _, b in t[2]] + ([t[3]] if t[3] is not None else [])
    if k == 'drop':
        return [t[2]]
    if k == 'assert':
        return [t[4]]
    if k == 'call':
        return [t[4]] if t[4] is not None else []
    return []
