"""Parser for the textual MIR that rustc 1.70 prints with -Zunpretty=mir.

Gives: Program.fns[name] -> Fn (args, locals with types, debug names, blocks), const and
promoted bodies, and name resolution from call sites to bodies (impl headers are read from
the source file the MIR header points to)."""
import os, re, functools
from .terms import ENUMV

SPAN = re.compile(r'\s*// (?:scope \d+ at|in scope \d+ at)\s+(\S+?):(\d+):(\d+): (\d+):(\d+)\s*$')
ANYC = re.compile(r'\s+// (?:scope|in scope|mir::|\+|ty::|return place).*$')


class Fn:
    __slots__ = ('name', 'canon', 'args', 'ret', 'locals', 'debug', 'blocks', 'cleanup', 'kind', 'raw', 'parsed',
                 'file', 'line', 'loops', 'prog', 'tys')

    def __repr__(self):
        return '<Fn %s>' % self.canon


def match_close(s, i):
    """index of the bracket closing the one at i (ignores -> and string literals)"""
    depth = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif c in '([{<':
            depth += 1
        elif c in ')]}':
            depth -= 1
            if depth == 0:
                return i
        elif c == '>' and s[i - 1] not in '-=':
            depth -= 1
            if depth == 0:
                return i
        i += 1
    raise ValueError('unbalanced: ' + s[:200])


def split_top(s, sep=','):
    out = []
    depth = 0
    cur = 0
    i = 0
    n = len(s)
    while i < n:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif c == "'" and i + 2 < n and (s[i + 2] == "'" or s[i + 1] == '\\'):
            i = s.index("'", i + 2)
        elif c in '([{<':
            depth += 1
        elif c in ')]}':
            depth -= 1
        elif c == '>' and s[i - 1] not in '-=':
            depth -= 1
        elif c == sep and depth == 0:
            out.append(s[cur:i].strip())
            cur = i + 1
        i += 1
    last = s[cur:].strip()
    if last:
        out.append(last)
    return out


# ---------------------------------------------------------------- places
@functools.lru_cache(maxsize=None)
def parse_place(s):
    p, i = _place(s, 0)
    if i != len(s):
        raise ValueError('place? %r at %d' % (s, i))
    return p


def _place(s, i):
    if s[i] == '(':
        if s[i + 1] == '*':
            (loc, proj), j = _place(s, i + 2)
            assert s[j] == ')', s
            p = (loc, proj + (('deref',),))
            i = j + 1
        else:
            (loc, proj), j = _place(s, i + 1)
            if s.startswith(' as ', j):
                k = s.index(')', j)
                p = (loc, proj + (('down', s[j + 4:k]),))
                i = k + 1
            elif s[j] == '.':
                m = re.match(r'\.(\d+): ', s[j:])
                k = match_close(s, i)
                p = (loc, proj + (('fld', int(m.group(1)), s[j + m.end():k]),))
                i = k + 1
            else:
                raise ValueError('place? %r' % s)
    else:
        m = re.compile(r'_(\d+)').match(s, i)
        if not m:
            raise ValueError('place? %r' % s)
        p = (int(m.group(1)), ())
        i = m.end()
    while i < len(s) and s[i] == '[':
        k = match_close(s, i)
        t = s[i + 1:k]
        m = re.fullmatch(r'_(\d+)', t)
        if m:
            pr = ('index', int(m.group(1)))
        else:
            m = re.fullmatch(r'(-?)(\d+) of (\d+)', t)
            if m:
                pr = ('cidx', int(m.group(2)), m.group(1) == '-')
            else:
                m = re.fullmatch(r'(\d+):(-?)(\d*)', t)
                if not m:
                    raise ValueError('index? %r' % s)
                pr = ('sub', int(m.group(1)), int(m.group(3) or 0), m.group(2) == '-' or not m.group(3))
        p = (p[0], p[1] + (pr,))
        i = k + 1
    return p, i


def parse_operand(s):
    s = s.strip()
    if s.startswith('move '):
        return ('pl', parse_place(s[5:]))
    if s.startswith('copy '):
        return ('pl', parse_place(s[5:]))
    if s.startswith('const '):
        return ('const', s[6:])
    return ('pl', parse_place(s))


BIN = {'Add', 'Sub', 'Mul', 'Div', 'Rem', 'BitXor', 'BitAnd', 'BitOr', 'Shl', 'Shr', 'Eq', 'Lt', 'Le', 'Ne', 'Ge', 'Gt',
       'Offset', 'CheckedAdd', 'CheckedSub', 'CheckedMul', 'CheckedShl', 'CheckedShr'}


def parse_rvalue(s):
    s = s.strip()
    if s.startswith('discriminant('):
        return ('discr', parse_place(s[13:-1]))
    if s.startswith('deref_copy '):
        return ('use', ('pl', parse_place(s[11:])))
    if s.startswith('&'):
        m = re.match(r'&(raw mut |raw const |mut |fake |shallow |)', s)
        return ('ref', m.group(1).strip(), parse_place(s[m.end():]))
    m = re.match(r'(\w+)\(', s)
    if m and m.group(1) in BIN and match_close(s, m.end() - 1) == len(s) - 1:
        a, b = split_top(s[m.end():-1])
        return ('bin', m.group(1), parse_operand(a), parse_operand(b))
    if m and m.group(1) in ('Not', 'Neg') and s.endswith(')'):
        return ('un', m.group(1), parse_operand(s[m.end():-1]))
    if m and m.group(1) == 'Len':
        return ('len', parse_place(s[4:-1]))
    if m and m.group(1) in ('SizeOf', 'AlignOf'):
        return ('nullary', m.group(1), s[m.end():-1])
    if m and m.group(1) == 'ShallowInitBox':
        a, b = split_top(s[m.end():-1])
        return ('sbox', parse_operand(a), b)
    if s.startswith('[closure@'):
        k = match_close(s, 0)
        rest = s[k + 1:].strip()
        flds = []
        if rest:
            for f in split_top(rest[1:-1]):
                flds.append(parse_operand(f.split(': ', 1)[1]))
        return ('agg', 'closure', s[:k + 1], None, flds)
    # cast:   OPERAND as TYPE (Kind)
    if s.startswith(('move ', 'copy ', 'const ', '_', '(')):
        m = re.search(r' \((?:[A-Z]\w*(?:\([\w(), ]*\))?)\)$', s)
        if m:
            body = s[:m.start()]
            # find ' as ' at depth 0
            d = 0
            i = 0
            while i < len(body):
                c = body[i]
                if c == '"':
                    i += 1
                    while body[i] != '"':
                        i += 2 if body[i] == '\\' else 1
                elif c in '([{<':
                    d += 1
                elif c in ')]}' or (c == '>' and body[i - 1] not in '-='):
                    d -= 1
                elif d == 0 and body.startswith(' as ', i):
                    return ('cast', parse_operand(body[:i]), body[i + 4:], s[m.start() + 2:-1])
                i += 1
        if s.startswith(('move ', 'copy ', 'const ')):
            return ('use', parse_operand(s))
        try:
            return ('use', parse_operand(s))
        except (ValueError, AssertionError):
            pass
    if s == '()':
        return ('agg', 'tuple', None, None, [])
    if s[0] == '(' and match_close(s, 0) == len(s) - 1:
        return ('agg', 'tuple', None, None, [parse_operand(x) for x in split_top(s[1:-1])])
    if s[0] == '[':
        inner = s[1:-1]
        parts = split_top(inner, ';')
        if len(parts) == 2:
            return ('repeat', parse_operand(parts[0]), parts[1])
        return ('agg', 'array', None, None, [parse_operand(x) for x in split_top(inner)])
    # adt aggregates
    if s.endswith(' }') or s.endswith('{}'):
        k = s.index(' {')
        # generics may contain braces rarely; take last top-level ' {'
        path = s[:k]
        names, ops = [], []
        for f in split_top(s[k + 2:-1].strip()):
            n, v = f.split(': ', 1)
            names.append(n)
            ops.append(parse_operand(v))
        return ('agg', 'adt', path, names, ops)
    if s.endswith(')'):
        # Path::Variant(ops)
        # args group = last top-level paren group
        st = last_paren(s)
        return ('agg', 'adt', s[:st], None, [parse_operand(x) for x in split_top(s[st + 1:-1])])
    return ('agg', 'adt', s, None, [])


def last_paren(s):
    """start of the top-level (...) group that ends s"""
    i = 0
    st = None
    while i < len(s):
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif c == '(':
            st = i
            i = paren_close(s, i)
        elif c in '[{':
            i = paren_close(s, i)
        i += 1
    return st


def paren_close(s, i):
    d = 0
    while True:
        c = s[i]
        if c == '"':
            i += 1
            while s[i] != '"':
                i += 2 if s[i] == '\\' else 1
        elif c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
            if d == 0:
                return i
        i += 1


def parse_stmt(s):
    """-> tuple or None to skip"""
    if s.startswith(('StorageLive', 'StorageDead', 'nop', 'FakeRead', 'AscribeUserType', 'Retag', 'ConstEvalCounter',
                     'Coverage', 'PlaceMention', 'Deinit')):
        return None
    if s.startswith('discriminant(') and ' = ' in s:
        m = re.match(r'discriminant\((.*)\) = (\d+)$', s)
        return ('setdiscr', parse_place(m.group(1)), int(m.group(2)))
    if s.startswith(('assume(', 'copy_nonoverlapping(')):
        return None
    l, r = s.split(' = ', 1)
    return ('assign', parse_place(l), parse_rvalue(r))


TGT = re.compile(r' -> (\[.*\]|bb\d+|unwind.*)$')


def parse_term(s):
    if s == 'return':
        return ('return',)
    if s in ('unreachable',):
        return ('unreachable',)
    if s.startswith(('resume', 'terminate', 'abort')):
        return ('resume',)
    if s.startswith('goto -> '):
        return ('goto', int(s[10:]))
    if s.startswith('switchInt('):
        k = paren_close(s, 9)
        op = parse_operand(s[10:k])
        m = re.search(r'\[(.*)\]$', s[k:])
        arms, other = [], None
        for p in m.group(1).split(', '):
            a, b = p.split(': bb')
            if a == 'otherwise':
                other = int(b)
            else:
                arms.append((int(a), int(b)))
        return ('switch', op, arms, other)
    if s.startswith('drop('):
        k = paren_close(s, 4)
        m = re.search(r'return: bb(\d+)', s[k:]) or re.search(r'-> bb(\d+)', s[k:])
        return ('drop', parse_place(s[5:k]), int(m.group(1)))
    if s.startswith('assert('):
        k = paren_close(s, 6)
        parts = split_top(s[7:k])
        c = parts[0]
        exp = True
        if c.startswith('!'):
            exp = False
            c = c[1:]
        m = re.search(r'success: bb(\d+)', s[k:]) or re.search(r'-> bb(\d+)', s[k:])
        return ('assert', parse_operand(c), exp, parts[1] if len(parts) > 1 else '', int(m.group(1)))
    m = TGT.search(s)
    tgt = None
    body = s
    if m:
        body = s[:m.start()]
        t = m.group(1)
        mm = re.search(r'return: bb(\d+)', t) or re.fullmatch(r'bb(\d+)', t)
        if mm:
            tgt = int(mm.group(1))
    l, r = body.split(' = ', 1)
    st = last_paren(r)
    args = [parse_operand(x) for x in split_top(r[st + 1:-1])]
    return ('call', parse_place(l), r[:st], args, tgt)


HEAD_FN = re.compile(r'^fn (.*) \{$')


def parse_item(lines, repo):
    """lines: raw lines of one item"""
    f = Fn()
    f.raw = lines
    f.parsed = False
    h = lines[0]
    h = ANYC.sub('', h)
    f.locals = {}
    f.debug = {}
    f.blocks = {}
    f.cleanup = set()
    f.args = []
    f.loops = None
    f.tys = ()
    if h.startswith('fn '):
        f.kind = 'fn'
        body = h[3:-2]
        # name up to '(' at the args: name may contain <impl at ...> and {closure#0}
        i = 0
        while True:
            c = body[i]
            if c == '<':
                i = match_close(body, i)
            elif c == '(':
                break
            i += 1
        f.name = body[:i]
        k = paren_close(body, i)
        for a in split_top(body[i + 1:k]):
            m = re.match(r'_(\d+): (.*)$', a)
            f.args.append(int(m.group(1)))
            f.locals[int(m.group(1))] = m.group(2)
        m = re.match(r'\s*-> (.*)$', body[k + 1:])
        f.ret = m.group(1) if m else '()'
    elif h.startswith('promoted['):
        f.kind = 'promoted'
        m = re.match(r'^(promoted\[\d+\]) in (.*): (.*?) = \{$', h)
        # type may contain ': '
        s = h[:-4]
        m = re.match(r'^(promoted\[\d+\]) in (.*)$', s)
        rest = m.group(2)
        j = _name_end(rest)
        f.name = rest[:j] + '::' + m.group(1)
        f.ret = rest[j + 2:]
    else:
        f.kind = 'const'
        s = re.sub(r'^(const|static mut|static) ', '', h)[:-4]
        j = _name_end(s)
        f.name = s[:j]
        f.ret = s[j + 2:]
    f.locals[0] = f.ret
    f.canon = None
    f.file = f.line = None
    return f


def _name_end(s):
    i = 0
    while i < len(s):
        c = s[i]
        if c == '<':
            i = match_close(s, i)
        elif s.startswith(': ', i):
            return i
        i += 1
    return len(s)


def parse_body(f):
    if f.parsed:
        return f
    f.parsed = True
    cur = None
    for ln in f.raw[1:]:
        if cur is not None and '+ literal: Const' in ln:
            m = re.search(r'val: Unevaluated\((.*), \[(.*?)\], (None|Some\((promoted\[\d+\])\))\) \}', ln)
            if m and f.blocks.get(cur):
                own = '<%s as %s' % (last_ident(m.group(2)), '>::'.join(m.group(1).rsplit('::', 2)[-2:])) if m.group(2) else ''
                name = own if own in f.prog.by_canon else m.group(1)        # a trait's constant, for a known type
                f.blocks[cur][-1][2].append(name + ('::' + m.group(4) if m.group(4) else ''))
            continue
        m = SPAN.search(ln)
        span = (m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4)), int(m.group(5))) if m else None
        s = ANYC.sub('', ln).strip()
        if not s or s.startswith(('//', 'StorageDead', 'StorageLive')) or s == '}':
            continue
        if cur is None or s.startswith('bb') and re.match(r'bb\d+( \(cleanup\))?: \{$', s):
            m = re.match(r'bb(\d+)( \(cleanup\))?: \{$', s)
            if m:
                cur = int(m.group(1))
                f.blocks[cur] = []
                if m.group(2):
                    f.cleanup.add(cur)
                continue
            m = re.match(r'let (?:mut )?_(\d+): (.*);$', s)
            if m:
                f.locals[int(m.group(1))] = m.group(2)
                continue
            m = re.match(r'debug (\S+) => (.*);$', s)
            if m:
                f.debug[m.group(1)] = m.group(2)
            continue
        f.blocks[cur].append([s.rstrip(';'), span, []])
    name_consts(f)
    for b, lst in list(f.blocks.items()):
        if b in f.cleanup:
            f.blocks[b] = ([], ('resume',), None)
            continue
        st = []
        for s, sp, _ in lst[:-1]:
            p = parse_stmt(s)
            if p:
                st.append((p, sp))
        t = parse_term(lst[-1][0])
        if t[0] == 'call' and t[4] in f.cleanup:
            t = t[:4] + (None,)
        f.blocks[b] = (st, t, lst[-1][1])
    if f.line is None:
        for b in sorted(f.blocks):
            sp = f.blocks[b][2]
            if sp:
                f.file, f.line = sp[:2]
                break
    return f


UND = re.compile(r'\bconst _(?![\w])')
IDENT = re.compile(r'(?:\b[A-Za-z_]\w*(?:::<[^>]*>)?::)*\b[A-Z_][A-Z0-9_]*\b(?!\s*[(!:{]|\w)')


def name_consts(f):
    """`const _` operands: the name comes from the dump's constant comments, or (integers, for which
    rustc prints none) from the source text the span points to."""
    todo = []
    for b, lst in f.blocks.items():
        if b in f.cleanup:
            continue
        for e in lst:
            n = len(UND.findall(e[0]))
            if not n:
                continue
            if n == len(e[2]):
                it = iter(e[2])
                e[0] = UND.sub(lambda m: 'const @' + next(it), e[0])
            elif e[1]:
                todo.append((e, n))
    if not todo:
        return
    claimed = {}
    size = lambda sp: (sp[3] - sp[1], sp[4] - sp[2])
    for e, n in sorted(todo, key=lambda x: size(x[0][1])):
        sp = e[1]
        src = f.prog.source(sp[0])
        toks = []
        for l in range(sp[1], min(sp[3], len(src)) + 1):
            line = src[l - 1]
            lo = sp[2] - 1 if l == sp[1] else 0
            hi = sp[4] - 1 if l == sp[3] else len(line)
            for m in IDENT.finditer(line[:hi].split('//')[0], lo):
                if claimed.get((sp[0], l, m.start()), sp) == sp:
                    toks.append(((sp[0], l, m.start()), m.group(0)))
        if len(toks) == n:
            claimed.update((k, sp) for k, _ in toks)
            it = iter(toks)
            e[0] = UND.sub(lambda m: 'const @' + next(it)[1], e[0])
        elif len({t for _, t in toks}) == 1:
            claimed.update((k, sp) for k, _ in toks)
            e[0] = UND.sub('const @' + toks[0][1], e[0])


# ---------------------------------------------------------------- names
def strip_life(s):
    s = re.sub(r"<'_(?:, '_)*>", '', s)
    s = re.sub(r"'[a-z_]\w*,? ?", '', s)
    return s


def drop_turbofish(s):
    """remove ::<...> groups"""
    out = ''
    i = 0
    while i < len(s):
        if s.startswith('::<', i) and not s.startswith('::<impl', i):
            i = match_close(s, i + 2) + 1
            continue
        out += s[i]
        i += 1
    return out


def last_ident(ty):
    """Base identifier of a type: strips refs, lifetimes, generics and the path."""
    ty = strip_life(ty).strip()
    ty = re.sub(r'^(&mut |&|\*const |\*mut |dyn )+', '', ty)
    if ty.startswith(('[', '(')):
        return ty
    if ty.startswith('dyn '):
        ty = ty[4:]
    m = re.match(r'[\w:]+', ty)
    base = m.group(0) if m else ty
    return base.rstrip(':').split('::')[-1]


@functools.lru_cache(maxsize=None)
def canon_call(s):
    """Canonical callee: '<Ty as Trait>::m' with bare identifiers, or the path without generics."""
    s = strip_life(s)
    if s.startswith('<'):
        k = match_close(s, 0)
        inner = s[1:k]
        rest = drop_turbofish(s[k + 1:])
        parts = split_as(inner)
        if len(parts) == 2:
            dyn = 'dyn ' if 'dyn ' in parts[0] and last_ident(parts[0]) and parts[0].lstrip('&').startswith('dyn') else ''
            ref = '&' if parts[0].startswith('&') else ''
            return '<%s%s%s as %s>%s' % (ref, dyn, last_ident(parts[0]), last_ident(parts[1]), rest)
        return '<%s>%s' % (last_ident(inner), rest)
    return drop_turbofish(s).replace('::::', '::')


def split_as(s):
    d = 0
    i = 0
    while i < len(s):
        c = s[i]
        if c in '([{<':
            d += 1
        elif c in ')]}' or (c == '>' and s[i - 1] not in '-='):
            d -= 1
        elif d == 0 and s.startswith(' as ', i):
            return [s[:i], s[i + 4:]]
        i += 1
    return [s]


def type_params(f):
    """names of the type parameters of a function item, from its declaration, `impl Trait` arguments last"""
    leaf = drop_turbofish(f.name).split('::')[-1]
    if not re.match(r'^\w+$', leaf):
        return []
    anon = []
    for t in (f.locals[a] for a in f.args):
        i = t.find('impl ')
        if i >= 0 and (i == 0 or t[i - 1] in '& (<'):
            k, depth = i, 0
            while k < len(t) and not (depth == 0 and t[k] in ',)>' and t[k - 1] not in '-='):
                depth += (t[k] in '<([') - (t[k] in '>)]' and t[k - 1] not in '-=')
                k += 1
            anon.append(t[i:k])
    for ps in f.prog.generics().get(leaf, ()):
        if all(any(re.search(r'\b%s\b' % p, x) for x in f.raw) for p in ps):
            return ps + anon
    return anon


def specialize(f, raw):
    """the function with the type arguments of the call `raw` put in for its type parameters"""
    i = raw.rfind('::<')
    if f.kind != 'fn' or i < 0 or match_close(raw, i + 2) != len(raw) - 1:
        return f
    tys = [t.strip() for t in split_top(raw[i + 3:-1])]
    tys = [t for t in tys if t and not t.startswith("'")]
    ps = type_params(f)
    return put_types(f, tuple(zip(ps, tys))) if ps and len(ps) == len(tys) else f


def put_types(f, tys):
    memo, key = f.prog.special, (id(f), tys)
    if key not in memo:
        rx = re.compile('|'.join((r'\b%s\b' if p.isidentifier() else '%s') % re.escape(p) for p, _ in tys))
        d = dict(tys)
        g = parse_item([rx.sub(lambda m: d[m.group(0)], x) for x in f.raw], f.prog.repo)
        g.name, g.canon, g.prog, g.tys = f.name, f.canon, f.prog, tuple(f.tys or ()) + tys
        memo[key] = g
    return memo[key]


class Program:
    def __init__(self, text, repo):
        text = text.replace('__core::', 'core::')       # the name the library has when a macro crate re-exports it
        self.repo = repo
        self._generics = None
        self.fns = {}
        self.src = {}
        self.items = []
        lines = text.split('\n')
        i = 0
        n = len(lines)
        while i < n:
            ln = lines[i]
            if ln and ln[0] not in ' }/' and ln.rstrip().endswith('{') and ln.startswith(
                    ('fn ', 'const ', 'static ', 'promoted[')) or (
                    ln and ln[0].isalpha() and re.match(r'^[\w:<{].*: .* = \{$', ln)) or (ln.startswith('<') and ln.endswith('= {')):
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f = parse_item(lines[i:j], repo)
                self.items.append(f)
                i = j
            i += 1
        self.special = {}
        self.by_canon = {}
        for f in self.items:
            f.canon = self.canon_header(f.name)
            f.prog = self
            self.by_canon.setdefault(f.canon, []).append(f)
        self.suffix = {}
        for c in self.by_canon:
            self.suffix.setdefault(c.split('::')[-1], []).append(c)
        self.structs, self.enums = {}, {}
        self.load_types()

    def source(self, rel):
        if rel not in self.src:
            p = os.path.join(self.repo, rel)
            self.src[rel] = open(p).read().split('\n') if os.path.exists(p) else []
        return self.src[rel]

    IMPL = re.compile(r'<impl at ([^:>]+):(\d+):(\d+): (\d+):(\d+)>')

    def generics(self):
        """function name -> lists of type parameter names in the crate's declarations"""
        if self._generics is None:
            self._generics = {}
            d = os.path.join(self.repo, 'programs', 'token-bonding-curve', 'src')
            for root, _, files in os.walk(d):
                for fn in sorted(files):
                    if fn.endswith('.rs'):
                        src = open(os.path.join(root, fn)).read()
                        for m in re.finditer(r'\bfn\s+(\w+)\s*<', src):
                            try:
                                inner = src[m.end():match_close(src, m.end() - 1)]
                            except IndexError:
                                continue
                            ps = [x.strip() for x in split_top(inner)]
                            ps = [x.split(':')[0].split('=')[0].strip() for x in ps if x and not x.startswith(("'", 'const '))]
                            if ps:
                                self._generics.setdefault(m.group(1), []).append(ps)
        return self._generics

    def canon_header(self, name):
        m = self.IMPL.search(name)
        if not m:
            return drop_turbofish(name)
        hdr = self.impl_header(m.group(1), int(m.group(2)), int(m.group(3)), int(m.group(4)), int(m.group(5)))
        return hdr + drop_turbofish(name[m.end():])

    def impl_header(self, file, l, c, l2, c2):
        src = self.source(file)
        if l > len(src):
            return '<?>'
        line = src[l - 1]
        text = line[c - 1:] if l != l2 else line[c - 1:c2 - 1]
        if l != l2:
            text = '\n'.join([line[c - 1:]] + src[l:l2 - 1] + [src[l2 - 1][:c2 - 1]])
        text = ' '.join(text.split())
        m = re.match(r'(?:unsafe )?impl(?:\s*<.*?>)?\s+(.*)$', text)
        if m:
            h = m.group(1)
            h = re.split(r'\bwhere\b', h)[0].strip()
            parts = re.split(r'\s+for\s+', h)
            if len(parts) == 2:
                return '<%s as %s>' % (last_ident(parts[1]), last_ident(parts[0]))
            return last_ident(h)
        # derive: text is the trait, the type follows
        if re.fullmatch(r'[\w:]+', text):
            joined = '\n'.join(src[l - 1:l + 400])
            mm = re.search(r'\b(?:struct|enum)\s+(\w+)', joined)
            ty = mm.group(1) if mm else '?'
            return '<%s as %s>' % (ty, text.split('::')[-1])
        return '<macro %s:%d %s>' % (file, l, text[:20])

    # -- resolve a call-site name to a body
    def resolve(self, callee):
        c = canon_call(callee)
        f = self._lookup(c)
        if f:
            return f
        return None

    def _lookup(self, c):
        l = self.by_canon.get(c)
        if l:
            return l[0]
        if c.startswith('<'):
            k = match_close(c, 0)
            # trait default method
            parts = split_as(c[1:k])
            if len(parts) == 2:
                m = c[k + 1:].lstrip(':')
                if parts[1] in ('ToAccountInfos', 'ToAccountMetas'):      # derived together with Accounts
                    for f in self.by_canon.get('<%s as Accounts>::%s' % (parts[0], m), []):
                        if not f.name.startswith('__'):
                            return f
                for t in (self.by_canon.get(parts[1] + '::' + m), self._suffix(parts[1] + '::' + m)):
                    if t:
                        return t[0]
            return None
        return (self._suffix(c) or [None])[0]

    def _suffix(self, c):
        """match on path suffixes: 'Fees::validate' vs 'curve::fees::Fees::validate'"""
        segs = c.split('::')
        cands = self.suffix.get(segs[-1], [])
        best = None
        for x in cands:
            if x.startswith('<'):
                continue
            xs = x.split('::')
            n = min(len(xs), len(segs))
            if xs[-n:] == segs[-n:] and (n >= 2 or len(segs) == 1 and len(xs) == 1):
                best = self.by_canon[x] if best is None else best
        # inherent impls are canonised as 'Type::m'
        if best is None and len(segs) >= 2:
            best = self.by_canon.get('::'.join(segs[-2:]))
        return best

    def fn(self, canon):
        """lookup an anchor by canonical name; None when missing"""
        l = self.by_canon.get(canon) or self._suffix(canon)
        return parse_body(l[0]) if l else None

    # -- types
    def load_types(self):
        root = os.path.join(self.repo, 'programs/token-bonding-curve/src')
        for d, _, fs in os.walk(root):
            for x in sorted(fs):
                if x.endswith('.rs'):
                    t = strip_comments(open(os.path.join(d, x)).read())
                    self._types(t)

    def _types(self, t):
        for m in re.finditer(r'\benum\s+(\w+)(?:<[^{]*>)?\s*\{', t):
            k = paren_close(t, m.end() - 1)
            val = -1
            vs = []
            for v in split_top(t[m.end():k]):
                v = re.sub(r'#\[[^\]]*(\[[^\]]*\])?[^\]]*\]', '', v).strip()
                mm = re.match(r'(\w+)\s*(?:\(.*\)|\{.*\})?\s*(?:=\s*(-?\d+))?$', v, re.S)
                if not mm:
                    continue
                val = int(mm.group(2)) if mm.group(2) else val + 1
                vs.append((mm.group(1), val))
            self.enums.setdefault(m.group(1), vs)
            ENUMV.setdefault(m.group(1), vs)
        for m in re.finditer(r'\bstruct\s+(\w+)(?:<[^{;(]*>)?\s*\{', t):
            k = paren_close(t, m.end() - 1)
            fs = []
            for v in split_top(t[m.end():k]):
                v = re.sub(r'#\[[^\]]*\]', '', v).strip()
                mm = re.match(r'(?:pub(?:\([^)]*\))?\s+)?(\w+)\s*:\s*(.*)$', v, re.S)
                if mm:
                    fs.append((mm.group(1), mm.group(2).strip()))
            self.structs.setdefault(m.group(1), fs)

    def fidx(self, struct, field):
        for i, (n, _) in enumerate(self.structs.get(struct, [])):
            if n == field:
                return i
        raise KeyError('%s.%s' % (struct, field))


def strip_comments(t):
    out = []
    i = 0
    n = len(t)
    while i < n:
        if t.startswith('//', i):
            j = t.find('\n', i)
            i = n if j < 0 else j
        elif t.startswith('/*', i):
            d = 1
            i += 2
            while d and i < n:
                if t.startswith('/*', i):
                    d += 1
                    i += 2
                elif t.startswith('*/', i):
                    d -= 1
                    i += 2
                else:
                    i += 1
        elif t[i] == '"':
            j = i + 1
            while t[j] != '"':
                j += 2 if t[j] == '\\' else 1
            out.append(t[i:j + 1])
            i = j + 1
        elif t[i] == "'" and i + 2 < n and (t[i + 2] == "'" or t[i + 1] == '\\'):
            j = t.index("'", i + 2)
            out.append(t[i:j + 1])
            i = j + 1
        else:
            out.append(t[i])
            i += 1
    return ''.join(out)
