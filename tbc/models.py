"""Meanings of the library calls that occur in (or are likely to appear in) the analysed code.
Each model returns a list of (state, value) outcomes (or of states that continue in a pushed frame)."""
import re
from .mir import last_ident, match_close, split_as, split_top, strip_life
from .terms import *

NUM = {'u8': 8, 'u16': 16, 'u32': 32, 'u64': 64, 'u128': 128, 'usize': 64, 'U256': 256, 'InnerUint': 256, 'i32': 32,
       'i64': 64, 'isize': 64, 'i128': 128, 'u128': 128}
EXACT, RX = {}, []


def model(*names):
    def d(fn):
        for n in names:
            EXACT[n] = fn
        return fn
    return d


def rx(p):
    def d(fn):
        RX.append((re.compile(p), fn))
        return fn
    return d


_memo = {}


def apply(it, st, canon, raw, args, ctx):
    f = EXACT.get(canon)
    if f is not None:
        return f(it, st, args, ctx, raw, None)
    hit = _memo.get(canon)
    if hit is None:
        hit = []
        for p, fn in RX:
            m = p.search(canon)
            if m:
                hit.append((fn, m))
        _memo[canon] = hit
    for fn, m in hit:
        r = fn(it, st, args, ctx, raw, m)
        if r is not None:
            return r
    return None


def val(it, st, v):
    """value behind references"""
    while v.op in ('ptr', 'dyn'):
        v = it.read(st, ('cell',) + v.args) if v.op == 'ptr' else v.args[0]
    return v


def con(it, st, v):
    return it.content(st, v)


def inner_types(raw):
    """(A, trait, B) of '<A as Trait<B>>::m'"""
    if not raw.startswith('<'):
        return None, None, None
    k = match_close(raw, 0)
    p = split_as(raw[1:k])
    if len(p) != 2:
        return p[0], None, None
    m = re.match(r'^([\w:]+)(?:<(.*)>)?$', p[1].strip(), re.S)
    return p[0], m.group(1) if m else p[1], m.group(2) if m else None


# ------------------------------------------------------------------ identity-like calls
@rx(r'^<(&|&mut )?(Rc|Arc|Ref|RefMut|Vec|String|Box|ProgramAccount|Context|Cow|Signer|Account|UncheckedAccount|Program) as '
    r'(Deref|DerefMut|AsRef|AsMut|Borrow|BorrowMut)>::\w+$')
@rx(r'^(Box::new|Rc::new|Rc::clone|Box::from|Vec::as_slice|Vec::as_mut_slice|String::as_str|core::slice::<impl \[.*\]>::(as_ptr|as_mut_ptr|as_slice|as_mut_slice|into_vec|to_vec)|std::slice::<impl \[.*\]>::(into_vec|to_vec)|Vec::into_boxed_slice|std::array::<impl .*>::as_slice|std::convert::identity|std::mem::drop|Some|std::hint::black_box|core::hint::black_box|black_box)$')
@rx(r'^<.* as (ToAccountInfo|ToAccountInfos|AsAccountInfo)>::to_account_info$')
@rx(r'^<.* as (ToOwned)>::to_owned$')
def _ident(it, st, args, ctx, raw, m):
    if m.group(0) == 'Some':
        return [(st, some(args[0]))]
    if m.group(0).endswith('::drop'):
        return [(st, UNIT)]
    if m.group(0) == 'Box::new':
        return [(st, it.alloc(st, args[0]))] if args[0].op == 'agg' else [(st, args[0])]
    if m.group(0).endswith(('to_vec', 'to_owned')):
        return [(st, con(it, st, args[0]))]
    if args[0].op == 'ptr':         # a reference to a smart pointer: one level off
        v = it.read(st, ('cell',) + args[0].args)
        if v.op in ('ptr', 'dyn'):
            return [(st, v)]
    return [(st, args[0])]


@rx(r'^<(.*) as Clone>::clone$')
@rx(r'^(?:Option|Result)::(cloned|copied)$')
def _clone(it, st, args, ctx, raw, m):
    return [(st, con(it, st, args[0]))]


@rx(r'^<AccountInfo as ToAccountInfos>::to_account_infos$')
def _tai(it, st, args, ctx, raw, m):
    return [(st, agg('array', None, con(it, st, args[0])))]


@model('<AccountInfo as Key>::key', 'AccountInfo::unsigned_key', 'anchor_lang::prelude::AccountInfo::unsigned_key')
def _key(it, st, args, ctx, raw, m):
    return [(st, fld(con(it, st, args[0]), 0))]


# ------------------------------------------------------------------ logging / formatting
@rx(r'(sol_log|sol_log_\w+|_print|_eprint|log::__private_api)$')
def _log(it, st, args, ctx, raw, m):
    return [(st, UNIT)]


@rx(r'^(Arguments::|core::fmt::|std::fmt::|alloc::fmt::|Formatter::|ArgumentV1::|core::fmt::rt)')
def _fmt(it, st, args, ctx, raw, m):
    return [(st, it.wrap(ctx.ty, T('fmt', con(it, st, args[0]) if args else UNIT)))]


# ------------------------------------------------------------------ comparison
@rx(r'^<(.*) as PartialEq>::(eq|ne)$')
def _eq(it, st, args, ctx, raw, m):
    ty = last_ident(m.group(1))
    fn = it.P.by_canon.get('<%s as PartialEq>::eq' % ty)
    if fn and not derived(it, fn[0]):
        return None
    e = mk_eq(con(it, st, args[0]), con(it, st, args[1]))
    return [(st, e if m.group(2) == 'eq' else mk_not(e))]


def derived(it, fn):
    m = it.P.IMPL.search(fn.name)
    if not m:
        return False
    src = it.P.source(m.group(1))
    return not src[int(m.group(2)) - 1][int(m.group(3)) - 1:].startswith('impl')


@rx(r'^<(.*) as PartialOrd>::(lt|le|gt|ge)$')
def _ord(it, st, args, ctx, raw, m):
    a, b = con(it, st, args[0]), con(it, st, args[1])
    k = m.group(2)
    ty = last_ident(m.group(1))
    if ty == 'Option':
        out = []
        for s1, x in it.force(st, a, 'Option'):
            for s2, y in it.force(s1, b, 'Option'):
                if x is NONE or y is NONE:
                    lt = (x is NONE) and (y is not NONE)
                    eq = x is y
                    r = B({'lt': lt, 'le': lt or eq, 'gt': not lt and not eq, 'ge': not lt or eq}[k])
                else:
                    r = rel(k, fields(x)[0], fields(y)[0])
                out.append((s2, r))
        return out
    if ty in NUM or not it.P.by_canon.get('<%s as PartialOrd>::%s' % (ty, k)) and not it.P.by_canon.get('<%s as PartialOrd>::partial_cmp' % ty):
        return [(st, rel(k, a, b))]
    return [(st, rel(k, a, b))]


def rel(k, a, b):
    if k == 'lt':
        return mk_lt(a, b)
    if k == 'gt':
        return mk_lt(b, a)
    if k == 'le':
        return mk_not(mk_lt(b, a))
    return mk_not(mk_lt(a, b))


@rx(r'(^|::)(cmp|mem)::(min|max)$|^<(\w+) as Ord>::(min|max)$')
def _minmax(it, st, args, ctx, raw, m):
    k = m.group(3) or m.group(5)
    return [(st, binop(k, con(it, st, args[0]), con(it, st, args[1])))]


@rx(r'^<(\w+) as Ord>::cmp$|^<(\w+) as PartialOrd>::partial_cmp$')
def _cmp(it, st, args, ctx, raw, m):
    a, b = con(it, st, args[0]), con(it, st, args[1])
    out = []
    for v, c, t in (('Less', mk_lt(a, b), True), ('Greater', mk_lt(b, a), True), ('Equal', mk_eq(a, b), True)):
        s = st.copy()
        if s.facts.assume(c, t):
            if v == 'Equal':
                pass
            r = agg('Ordering', v)
            out.append((s, some(r) if m.group(2) else r))
    return out


@rx(r'^<(\w+) as Ord>::clamp$')
def _clamp(it, st, args, ctx, raw, m):
    return [(st, binop('min', binop('max', con(it, st, args[0]), con(it, st, args[1])), con(it, st, args[2])))]


# ------------------------------------------------------------------ integers
def width_of(canon, raw, ctx):
    m = re.search(r'<impl (\w+)>', canon)
    if m:
        return m.group(1)
    m = re.match(r'^(\w+)::', canon)
    return m.group(1) if m else '?'


@rx(r'^(?:core::num::<impl (\w+)>|(U256|U128|U512|InnerUint))::checked_(add|sub|mul|div|rem|pow|shl|shr|rem_euclid|div_euclid)$')
def _checked(it, st, args, ctx, raw, m):
    w = m.group(1) or m.group(2)
    op = {'rem_euclid': 'rem', 'div_euclid': 'div'}.get(m.group(3), m.group(3))
    a, b = con(it, st, args[0]), con(it, st, args[1])
    r = binop(op, a, b)
    if a.op == 'c' and b.op == 'c':
        bits = NUM.get(w, 64)
        if op == 'sub' and a.args[0] < b.args[0] or op in ('div', 'rem') and b.args[0] == 0:
            return [(st, NONE)]
        if r.op == 'c' and r.args[0] < (1 << bits):
            return [(st, some(r))]
    if op in ('div', 'rem') and b.op == 'c' and b.args[0] > 0:
        return [(st, some(r))]
    if op == 'sub' and b is C(0) or op == 'add' and (b is C(0) or a is C(0)) or op == 'mul' and (C(0) in (a, b) or C(1) in (a, b)):
        return [(st, some(r))]
    return [(st, symenum('Option', T('chk_' + op, w, a, b), r))]


@rx(r'^(?:core::num::<impl (\w+)>|(U256))::(saturating|wrapping|overflowing|unchecked)_(add|sub|mul|div|rem|pow|shl|shr)$')
def _sat(it, st, args, ctx, raw, m):
    w = m.group(1) or m.group(2)
    a, b = con(it, st, args[0]), con(it, st, args[1])
    k, op = m.group(3), m.group(4)
    if a.op == 'c' and b.op == 'c':
        r = binop(op, a, b)
        if r.op == 'c' and r.args[0] < (1 << NUM.get(w, 64)):
            return [(st, r if k != 'overflowing' else agg('tuple', None, r, FALSE))]
    it.note(k, (op, w), a, b, st, ctx.span)
    if k == 'overflowing':
        return [(st, agg('tuple', None, T('wrap', op, w, a, b), T('ovf', op, w, a, b)))]
    if k == 'saturating' and op == 'sub' and st.facts.ge(a, b):
        return [(st, binop('sub', a, b))]
    return [(st, T('sat' if k == 'saturating' else 'wrap', op, w, a, b))]


@rx(r'^core::num::<impl (\w+)>::(pow|abs_diff|is_power_of_two|count_ones|leading_zeros|trailing_zeros|div_ceil|rem_euclid|div_euclid)$|^U256::(pow)$')
def _pow(it, st, args, ctx, raw, m):
    w, k = (m.group(1), m.group(2)) if m.group(1) else ('U256', m.group(3))
    a = con(it, st, args[0])
    b = con(it, st, args[1]) if len(args) > 1 else None
    if k == 'pow':
        r = binop('pow', a, b)
        if not (r.op == 'c' and r.args[0] < (1 << NUM.get(w, 64))):
            it.note('wrap', ('pow', w), a, b, st, ctx.span)
        return [(st, r)]
    if k in ('rem_euclid', 'div_euclid'):
        return [(st, binop(k[:3], a, b))]
    if k == 'div_ceil':
        return [(st, T('ceildiv', a, b))]
    return [(st, T('call', k, a, *([b] if b is not None else [])))]


@rx(r'^<(U256|u64|u128|u8|usize|u32|&U256|&u64|&u128) as (Add|Sub|Mul|Div|Rem|Shl|Shr|BitAnd|BitOr)>::\w+$')
def _opov(it, st, args, ctx, raw, m):
    op = m.group(2).lower()
    a, b = con(it, st, args[0]), con(it, st, args[1])
    w = m.group(1).strip('&')
    if op in ('add', 'sub', 'mul', 'shl', 'shr'):
        it.note('panics' if w == 'U256' and op in ('add', 'sub', 'mul') else 'wrap', (op, w), a, b, st, ctx.span)
    if op in ('bitand', 'bitor'):
        return [(st, T(op, a, b))]
    return [(st, binop(op, a, b))]


@rx(r'^<(U256|u64|u128|u8|usize|u32) as (Add|Sub|Mul|Div|Rem|Shl|Shr)Assign>::\w+$')
def _opassign(it, st, args, ctx, raw, m):
    op = m.group(2).lower()
    a, b = con(it, st, args[0]), con(it, st, args[1])
    it.note('panics' if m.group(1) == 'U256' else 'wrap', (op, m.group(1)), a, b, st, ctx.span)
    if args[0].op == 'ptr':
        it.write(st, ('cell',) + args[0].args, binop(op, a, b))
    return [(st, UNIT)]


@rx(r'^<(\w+) as CheckedCeilDiv>::checked_ceil_div$')
def _ceildiv(it, st, args, ctx, raw, m):
    a, b = con(it, st, args[0]), con(it, st, args[1])
    key = T('chk_ceil', m.group(1), a, b)
    return [(st, symenum('Option', key, agg('tuple', None, T('ceilq', a, b), T('ceilr', a, b))))]


@model('U256::one')
def _one(it, st, args, ctx, raw, m):
    return [(st, C(1))]


@model('U256::zero')
@rx(r'^<(u8|u16|u32|u64|u128|usize|U256) as (Default>::default|Zero>::zero)$')
def _zero(it, st, args, ctx, raw, m):
    return [(st, C(0))]


@model('<bool as Default>::default')
def _bdef(it, st, args, ctx, raw, m):
    return [(st, FALSE)]


@rx(r'^<Option as Default>::default$')
def _odef(it, st, args, ctx, raw, m):
    return [(st, NONE)]


@rx(r'^U256::is_zero$|^<\w+ as Zero>::is_zero$')
def _iszero(it, st, args, ctx, raw, m):
    return [(st, mk_eq(con(it, st, args[0]), C(0)))]


@rx(r'^U256::(as_u128|as_u64|low_u64|low_u128|as_usize|as_u32)$')
def _asu(it, st, args, ctx, raw, m):
    v = con(it, st, args[0])
    k = m.group(1)
    it.note('panics' if k.startswith('as_') else 'trunc', k.split('_')[1], v, None, st, ctx.span)
    return [(st, v if k.startswith('as_') else T('trunc', k.split('_')[1], v))]


@rx(r'^core::num::<impl (\w+)>::(from|to)_(le|be|ne)_bytes$')
def _bytes(it, st, args, ctx, raw, m):
    v = con(it, st, args[0])
    n = NUM[m.group(1)] // 8
    e = '' if m.group(3) in ('le', 'ne') else 'be'
    if m.group(2) == 'from':
        if v.op == e + 'lebytes' and v.args[0] == n:
            return [(st, v.args[1])]
        return [(st, T(e + 'le', n, v))]
    if v.op == e + 'le' and v.args[0] == n:
        return [(st, v.args[1])]
    return [(st, T(e + 'lebytes', n, v))]


@rx(r'^<(\S+) as (Into|From|TryInto|TryFrom)>::(into|from|try_into|try_from)$')
def _conv(it, st, args, ctx, raw, m):
    a, tr, b = inner_types(raw)
    if tr is None or b is None:
        return None
    src, dst = (a, b) if 'Into' in tr else (b, a)
    s, d = last_ident(src), last_ident(dst)
    tryk = m.group(2).startswith('Try')
    v = con(it, st, args[0]) if s in NUM else args[0]
    if s in NUM and d in NUM:
        if not tryk:
            return [(st, v)]
        if NUM[d] >= NUM[s] and s[0] not in 'i':
            return [(st, ok(v))]
        if v.op == 'c':
            return [(st, ok(v) if v.args[0] < (1 << NUM[d]) else err(T('interr')))]
        if v.op == 'trunc':
            pass
        return [(st, symenum('Result', T('conv', d, v), v))]
    if s == 'bool' and d in NUM:
        from .interp import cases
        out = []
        for t in (True, False):
            for case in cases(v, t):
                s2 = st.copy()
                if all(s2.facts.assume(c, tr) for c, tr in case):
                    out.append((s2, C(int(t))))
        return out
    if s == d and not tryk:
        return [(st, args[0])]
    if d == 'Option' and not tryk:
        return [(st, some(args[0]))]
    if tryk and (dst.startswith('[') or dst.startswith('&[')):
        mm = re.search(r'; (\d+)\]', dst)
        if mm:
            x = con(it, st, args[0])
            ln = it.length(x)
            n = int(mm.group(1))
            if ln.op == 'c':
                return [(st, ok(view(x, 0, n)) if ln.args[0] == n else err(T('sliceerr')))]
            return [(st, symenum('Result', T('chk_len', x, C(n)), view(x, 0, n)))]
    # in-crate From implementations
    for name in (('<%s as %s>::%s' % (d, 'TryFrom' if tryk else 'From', 'try_from' if tryk else 'from')),):
        l = it.P.by_canon.get(name)
        if l:
            f = l[0]
            if len(l) > 1:
                for x in l:
                    if last_ident(x.locals[x.args[0]]) == s:
                        f = x
            if last_ident(f.locals[f.args[0]]) == s or len(l) == 1:
                it.push(st, f, [args[0]], ctx, None)
                return [st]
    if 'into' == m.group(3) and s == 'ErrorCode' or s == 'ErrorCode':
        return [(st, T('errcode', con(it, st, args[0])))]
    k = T('call', 'conv:%s->%s' % (s, d), con(it, st, args[0]))
    return [(st, it.wrap(ctx.ty, k))]


# ------------------------------------------------------------------ Option / Result
@rx(r'^<(Option|Result) as Try>::branch$')
def _branch(it, st, args, ctx, raw, m):
    k = m.group(1)
    out = []
    for s, a in it.force(st, args[0], k):
        if a.args[1] in ('Some', 'Ok'):
            out.append((s, agg('ControlFlow', 'Continue', fields(a)[0])))
        else:
            out.append((s, agg('ControlFlow', 'Break', a)))
    return out


@rx(r'^<(Option|Result) as Try>::from_output$')
def _fo(it, st, args, ctx, raw, m):
    return [(st, some(args[0]) if m.group(1) == 'Option' else ok(args[0]))]


@rx(r'^<(Option|Result) as FromResidual>::from_residual$')
def _resid(it, st, args, ctx, raw, m):
    if m.group(1) == 'Option':
        return [(st, NONE)]
    a, tr, b = inner_types(raw)
    F = split_top(a[a.index('<') + 1:-1])[-1].strip()
    E = split_top(b[b.index('<') + 1:-1])[-1].strip()
    out = []
    for s, x in it.force(st, args[0], 'Result'):
        if x.args[1] != 'Err':
            continue
        e = fields(x)[0]
        if last_ident(E) == last_ident(F):
            out.append((s, err(e)))
            continue
        r = conv_err(it, s, e, E, F, ctx)
        out.extend(r)
    return out


def conv_err(it, s, e, E, F, ctx):
    l = it.P.by_canon.get('<%s as From>::from' % last_ident(F)) or []
    l = [x for x in l if last_ident(x.locals[x.args[0]]) == last_ident(E)]
    if l:
        it.push(s, l[0], [e], ctx, lambda st, v: [(st, err(v))])
        return [s]
    if last_ident(E) == 'ErrorCode':
        return [(s, err(T('errcode', it.content(s, e))))]
    return [(s, err(T('call', 'conv:%s->%s' % (last_ident(E), last_ident(F)), it.content(s, e))))]


def opt(method):
    return rx(r'^(Option|Result)::%s$' % method)


@opt('ok_or')
def _okor(it, st, args, ctx, raw, m):
    return [(s, ok(fields(a)[0]) if a is not NONE else err(args[1])) for s, a in it.force(st, args[0], 'Option')]


def each(it, st, v, kind, good, bad):
    out = []
    for s, a in it.force(st, v, kind):
        g = a.args[1] in ('Some', 'Ok')
        out.extend(good(s, fields(a)[0]) if g else bad(s, a))
    return out


@opt('ok_or_else')
def _okorelse(it, st, args, ctx, raw, m):
    return each(it, st, args[0], 'Option', lambda s, x: [(s, ok(x))],
                lambda s, a: it.invoke(s, args[1], [], ctx, lambda s2, r: [(s2, err(r))]))


@opt('map')
def _map(it, st, args, ctx, raw, m):
    k = m.group(1)
    mk = some if k == 'Option' else ok
    return each(it, st, args[0], k, lambda s, x: it.invoke(s, args[1], [x], ctx, lambda s2, r: [(s2, mk(r))]),
                lambda s, a: [(s, a)])


@opt('map_err')
def _maperr(it, st, args, ctx, raw, m):
    return each(it, st, args[0], 'Result', lambda s, x: [(s, ok(x))],
                lambda s, a: it.invoke(s, args[1], [fields(a)[0]], ctx, lambda s2, r: [(s2, err(r))]))


@opt('and_then')
def _andthen(it, st, args, ctx, raw, m):
    return each(it, st, args[0], m.group(1), lambda s, x: it.invoke(s, args[1], [x], ctx, None) if True else None,
                lambda s, a: [(s, a)])


@opt('and')
def _and(it, st, args, ctx, raw, m):
    return each(it, st, args[0], m.group(1), lambda s, x: [(s, args[1])], lambda s, a: [(s, a)])


@opt('or')
def _or(it, st, args, ctx, raw, m):
    mk = some if m.group(1) == 'Option' else ok
    return each(it, st, args[0], m.group(1), lambda s, x: [(s, mk(x))], lambda s, a: [(s, args[1])])


@opt('or_else')
def _orelse(it, st, args, ctx, raw, m):
    mk = some if m.group(1) == 'Option' else ok
    return each(it, st, args[0], m.group(1), lambda s, x: [(s, mk(x))],
                lambda s, a: it.invoke(s, args[1], [] if m.group(1) == 'Option' else [fields(a)[0]], ctx, None))


@opt('ok')
def _ok(it, st, args, ctx, raw, m):
    return each(it, st, args[0], 'Result', lambda s, x: [(s, some(x))], lambda s, a: [(s, NONE)])


@opt('err')
def _err(it, st, args, ctx, raw, m):
    return each(it, st, args[0], 'Result', lambda s, x: [(s, NONE)], lambda s, a: [(s, some(fields(a)[0]))])


@opt('(unwrap|expect)')
def _unwrap(it, st, args, ctx, raw, m):
    def bad(s, a):
        it.finish('abort', None, s, ctx.span, 'unwrap')
        return []
    return each(it, st, args[0], m.group(1), lambda s, x: [(s, x)], bad)


@opt('(unwrap_or|unwrap_or_default|unwrap_or_else)')
def _unwrapor(it, st, args, ctx, raw, m):
    k = m.group(2)

    def bad(s, a):
        if k == 'unwrap_or':
            return [(s, args[1])]
        if k == 'unwrap_or_else':
            return it.invoke(s, args[1], [] if m.group(1) == 'Option' else [fields(a)[0]], ctx, None)
        t = last_ident(ctx.ty)
        return [(s, C(0) if t in NUM else FALSE if t == 'bool' else T('default', t))]
    return each(it, st, args[0], m.group(1), lambda s, x: [(s, x)], bad)


@opt('(is_some|is_none|is_ok|is_err)')
@rx(r'^(COption)::(is_some|is_none)$')
def _is(it, st, args, ctx, raw, m):
    k = m.group(2)
    want = k in ('is_some', 'is_ok')
    return each(it, st, args[0], m.group(1), lambda s, x: [(s, B(want))], lambda s, a: [(s, B(not want))])


@opt('(map_or|map_or_else|is_some_and|is_ok_and)')
def _mapor(it, st, args, ctx, raw, m):
    k = m.group(2)
    if k in ('is_some_and', 'is_ok_and'):
        return each(it, st, args[0], m.group(1), lambda s, x: it.invoke(s, args[1], [x], ctx, None), lambda s, a: [(s, FALSE)])
    bad = (lambda s, a: [(s, args[1])]) if k == 'map_or' else (
        lambda s, a: it.invoke(s, args[1], [] if m.group(1) == 'Option' else [fields(a)[0]], ctx, None))
    return each(it, st, args[0], m.group(1), lambda s, x: it.invoke(s, args[2], [x], ctx, None), bad)


@opt('(as_ref|as_mut|as_deref)')
@rx(r'^(COption)::(as_ref|as_mut)$')
def _asref(it, st, args, ctx, raw, m):
    v = val(it, st, args[0])
    return [(st, v)]


@opt('filter')
def _filter(it, st, args, ctx, raw, m):
    def good(s, x):
        def post(s2, r):
            out = []
            for t in (True, False):
                s3 = s2.copy()
                if s3.facts.assume(r, t):
                    out.append((s3, some(x) if t else NONE))
            return out
        return it.invoke(s, args[1], [x], ctx, post)
    return each(it, st, args[0], 'Option', good, lambda s, a: [(s, NONE)])


@opt('zip')
def _zip(it, st, args, ctx, raw, m):
    return each(it, st, args[0], 'Option', lambda s, x: each(it, s, args[1], 'Option', lambda s2, y: [(s2, some(agg('tuple', None, x, y)))], lambda s2, a: [(s2, NONE)]),
                lambda s, a: [(s, NONE)])


@opt('(transpose|flatten)')
def _flat(it, st, args, ctx, raw, m):
    if m.group(2) == 'flatten':
        return each(it, st, args[0], m.group(1), lambda s, x: [(s, x)], lambda s, a: [(s, a)])
    return None


@rx(r'^core::bool::<impl bool>::(then|then_some)$')
def _then(it, st, args, ctx, raw, m):
    out = []
    for t in (True, False):
        s = st.copy()
        if s.facts.assume(val(it, s, args[0]), t):
            if not t:
                out.append((s, NONE))
            elif m.group(1) == 'then_some':
                out.append((s, some(args[1])))
            else:
                out.extend(it.invoke(s, args[1], [], ctx, lambda s2, r: [(s2, some(r))]))
    return out


@rx(r'^<bool as Not>::not$')
def _not(it, st, args, ctx, raw, m):
    return [(st, mk_not(con(it, st, args[0])))]


# ------------------------------------------------------------------ slices, vectors, pointers
@rx(r'^(?:core|std)::slice::<impl \[.*\]>::len$|^Vec::len$')
def _len(it, st, args, ctx, raw, m):
    return [(st, it.length(con(it, st, args[0])))]


@rx(r'^(?:core|std)::slice::<impl \[.*\]>::is_empty$|^Vec::is_empty$')
def _isempty(it, st, args, ctx, raw, m):
    return [(st, mk_eq(it.length(con(it, st, args[0])), C(0)))]


@rx(r'^(?:core::|std::)?slice::(?:raw::)?from_ref$|^(?:core::|std::)?array::from_ref$')
def _fromref(it, st, args, ctx, raw, m):
    return [(st, agg('array', None, con(it, st, args[0])))]


@rx(r'^(?:core|std)::slice::<impl \[.*\]>::split_(first|last)(_mut)?$')
def _splitfirst(it, st, args, ctx, raw, m):
    v = con(it, st, args[0])
    ln = it.length(v)
    if m.group(1) == 'last' and ln.op != 'c':
        return None
    at, lo, n = (0, 1, None) if m.group(1) == 'first' else (ln.args[0] - 1, 0, ln.args[0] - 1)
    pay = agg('tuple', None, *parts_of(it, args[0], v, m.group(2), at, lo, n))
    if ln.op == 'c':
        return [(st, some(pay) if ln.args[0] else NONE)]
    return [(st, symenum('Option', T('chk_nonempty', v), pay))]


def parts_of(it, p, v, mut, at, lo, n):
    """element `at` and the sub-slice from lo of n elements, as places when they are borrowed for writing"""
    if not mut:
        return idx(v, at), view(v, lo, n)
    if p.op == 'ptr':
        c, l, pr = p.args
        e = pr[:-1] + (('i', pr[-1][1] + at),) if pr and pr[-1][0] == 'v' else pr + (('i', at),)
        return T('ptr', c, l, e), it.ptrview(p, lo, n)
    return idx(p, at), view(p, lo, n)


@rx(r'^(?:core|std)::slice::<impl \[.*\]>::(chunks|chunks_exact|chunks_mut|chunks_exact_mut)$')
def _chunks(it, st, args, ctx, raw, m):
    v, n = con(it, st, args[0]), con(it, st, args[1])
    ln = it.length(v)
    if ln.op != 'c' or n.op != 'c' or not n.args[0] or ln.args[0] > 64 * n.args[0]:
        return None
    ln, n, p = ln.args[0], n.args[0], args[0]
    cut = [(o, min(n, ln - o)) for o in range(0, ln, n) if 'exact' not in m.group(1) or o + n <= ln]
    if m.group(1).endswith('mut') and p.op == 'ptr':
        return [(st, mkiter(agg('array', None, *[it.ptrview(p, o, k) for o, k in cut])))]
    return [(st, mkiter(agg('array', None, *[view(p if m.group(1).endswith('mut') else v, o, k) for o, k in cut])))]


@rx(r'^(?:core|std)::slice::<impl \[.*\]>::(split_at|split_at_mut)$')
def _splitat(it, st, args, ctx, raw, m):
    n = con(it, st, args[1])
    if n.op != 'c':
        return None
    k = n.args[0]
    p = args[0]
    if p.op == 'ptr':
        return [(st, agg('tuple', None, it.ptrview(p, 0, k), it.ptrview(p, k, None)))]
    return [(st, agg('tuple', None, view(p, 0, k), view(p, k, None)))]


@rx(r'^(?:core|std)::slice::<impl \[.*\]>::(get|first|get_mut)$')
def _get(it, st, args, ctx, raw, m):
    v = con(it, st, args[0])
    i = con(it, st, args[1]) if len(args) > 1 else C(0)
    ln = it.length(v)
    if len(args) == 1 and ln.op != 'c':
        return [(st, symenum('Option', T('chk_nonempty', v), idx(v, 0)))]
    if i.op == 'agg':
        r = rng(i)
        if r:
            lo, hi = r
            pay = view(v, lo, None if hi is None else hi - lo)
            return [(st, symenum('Option', T('chk_range', v, C(lo), C(hi) if hi is not None else UNIT), pay))]
        return None
    pay = idx(v, i.args[0]) if i.op == 'c' else T('idx', v, i)
    if ln.op == 'c' and i.op == 'c':
        return [(st, some(pay) if i.args[0] < ln.args[0] else NONE)]
    if i.op == 'c' and 'AccountInfo' in ctx.ty:
        return [(st, symenum('Option', T('chk_nextacct', pay), pay))]
    return [(st, symenum('Option', T('chk_idx', v, i), pay))]


@rx(r'^(?:(?:core|std)::ops::)?(RangeInclusive|Range|RangeFrom|RangeTo|RangeToInclusive)::contains$')
def _within(it, st, args, ctx, raw, m):
    v, x = con(it, st, args[0]), con(it, st, args[1])
    k = m.group(1)
    if v.op == 'call' and v.args[0].endswith('RangeInclusive::new'):
        f = list(v.args[1:3])
    elif isagg(v, k):
        f = list(fields(v))
    else:
        return None
    lo = f.pop(0) if not k.startswith('RangeTo') else None
    hi = f.pop(0) if k != 'RangeFrom' else None
    r = TRUE
    if lo is not None:
        r = mk_and(r, mk_not(mk_lt(x, lo)))
    if hi is not None:
        r = mk_and(r, mk_not(mk_lt(hi, x)) if k.endswith('Inclusive') else mk_lt(x, hi))
    return [(st, r)]


def rng(r):
    n = r.args[0]
    f = fields(r)
    if n == 'RangeFull':
        return (0, None)
    if any(x.op != 'c' for x in f[:2]):
        return None
    f = [x.args[0] for x in f[:2] if x.op == 'c']
    if n == 'Range':
        return (f[0], f[1])
    if n == 'RangeFrom':
        return (f[0], None)
    if n == 'RangeTo':
        return (0, f[0])
    if n == 'RangeInclusive':
        return (f[0], f[1] + 1)
    if n == 'RangeToInclusive':
        return (0, f[0] + 1)
    return None


@rx(r'^<.* as (Index|IndexMut)>::index(_mut)?$')
def _index(it, st, args, ctx, raw, m):
    r = con(it, st, args[1])
    p = args[0]
    if r.op == 'agg' and r.args[0].startswith('Range'):
        q = rng(r)
        if q is None:
            return [(st, T('slice', con(it, st, p), r))]
        lo, hi = q
        if lo == 0 and hi is None:
            return [(st, p)]
        ln = None if hi is None else hi - lo
        if ln is not None and ln < 0:
            it.finish('abort', None, st, ctx.span, 'slice range')
            return []
        if p.op == 'ptr':
            return [(st, it.ptrview(p, lo, ln))]
        return [(st, view(p, lo, ln))]
    if r.op == 'c':
        if p.op == 'ptr':
            c, l, pr = p.args
            if pr and pr[-1][0] == 'v':
                return [(st, T('ptr', c, l, pr[:-1] + (('i', pr[-1][1] + r.args[0]),)))]
            return [(st, T('ptr', c, l, pr + (('i', r.args[0]),)))]
        return [(st, idx(p, r.args[0]))]
    return [(st, T('idx', con(it, st, p), r))]


@rx(r'^ptr::(?:const_ptr|mut_ptr)::<impl \*(?:const|mut) T>::(offset|add)$')
def _offset(it, st, args, ctx, raw, m):
    n = con(it, st, args[1])
    p = args[0]
    if n.op != 'c':
        return [(st, T('slice', con(it, st, p), n))]
    if p.op == 'ptr':
        return [(st, it.ptrview(p, n.args[0], None))]
    return [(st, view(p, n.args[0], None))]


@rx(r'copy_from_slice$|clone_from_slice$')
def _copyfrom(it, st, args, ctx, raw, m):
    d, s = args[0], con(it, st, args[1])
    if d.op == 'ptr':
        ln = it.length(con(it, st, d))
        sl = it.length(s)
        c, l, pr = d.args
        if pr and pr[-1][0] == 'v' and pr[-1][2] is None and sl.op == 'c':
            pr = pr[:-1] + (('v', pr[-1][1], sl.args[0]),)
        it.write(st, ('cell', c, l, pr), s, ctx.span)
    else:
        it.write(st, ('val', d), s, ctx.span)
    return [(st, UNIT)]


@rx(r'^(?:core|std)::slice::<impl \[.*\]>::(reverse|swap)$')
def _reverse(it, st, args, ctx, raw, m):
    d, v = args[0], con(it, st, args[0])
    if d.op != 'ptr' or not isagg(v, 'array'):
        return None
    xs = list(fields(v))
    if m.group(1) == 'reverse':
        xs.reverse()
    else:
        i, j = (con(it, st, a) for a in args[1:3])
        if i.op != 'c' or j.op != 'c' or max(i.args[0], j.args[0]) >= len(xs):
            return None
        xs[i.args[0]], xs[j.args[0]] = xs[j.args[0]], xs[i.args[0]]
    it.write(st, ('cell',) + d.args, agg('array', None, *xs), ctx.span)
    return [(st, UNIT)]


@rx(r'^(?:core|std)::slice::<impl \[.*\]>::fill$')
def _fill(it, st, args, ctx, raw, m):
    d, v = args[0], con(it, st, args[1])
    ln = it.length(con(it, st, d))
    r = T('rep', v, ln.args[0] if ln.op == 'c' else None)
    it.write(st, ('cell',) + d.args if d.op == 'ptr' else ('val', d), r, ctx.span)
    return [(st, UNIT)]


@rx(r'^Vec::(new|with_capacity)$')
def _vnew(it, st, args, ctx, raw, m):
    return [(st, agg('array', None))]


@rx(r'^Vec::(push|append|extend_from_slice)$|^<Vec as Extend>::extend$')
def _vpush(it, st, args, ctx, raw, m):
    d = args[0]
    cur = con(it, st, d)
    k = m.group(1) or 'extend'
    x = con(it, st, args[1])
    if isagg(x, 'iter'):
        x = agg('array', None, *iter_items(x)) if iter_items(x) is not None else T('iterseq', x)
    add = [x] if k == 'push' else (list(fields(x)) if isagg(x, 'array') else None)
    if isagg(cur, 'array') and add is not None:
        r = agg('array', None, *(list(fields(cur)) + add))
    else:
        r = T('concat', cur, x)
    if d.op == 'ptr':
        it.write(st, ('cell',) + d.args, r)
    return [(st, UNIT)]


@rx(r'exchange_malloc$|box_new$')
def _malloc(it, st, args, ctx, raw, m):
    if raw.endswith('box_new'):
        return [(st, it.alloc(st, args[0]))]
    return [(st, it.alloc(st, T('uninit')))]


# ------------------------------------------------------------------ RefCell / accounts
@rx(r'^RefCell::(borrow|borrow_mut)$')
def _borrow(it, st, args, ctx, raw, m):
    return [(st, datav(it, st, con(it, st, args[0])))]


def datav(it, st, v):
    if v.op == 'fld' and v.args[1] == 4:
        return T('data', v.args[0], st.epoch)
    if v.op == 'fld' and v.args[1] == 3:
        return T('lamports', v.args[0], st.epoch)
    return v


@rx(r'AccountInfo::(try_borrow_data|try_borrow_mut_data|data|try_borrow_lamports|lamports|data_len|data_is_empty|try_data_len|try_lamports)$')
def _trybor(it, st, args, ctx, raw, m):
    a = con(it, st, args[0])
    k = m.group(1)
    if 'lamports' in k:
        v = T('lamports', a, st.epoch)
    else:
        v = T('data', a, st.epoch)
    if k == 'data_is_empty':
        return [(st, mk_eq(T('len', v), C(0)))]
    if k == 'data_len':
        return [(st, T('len', v))]
    if k == 'try_data_len':
        v = T('len', v)
    if k.startswith('try'):
        return [(st, symenum('Result', T('borrow', a), v))]
    return [(st, v)]


@rx(r'^<(Account|Mint|SwapV1|Fees|SwapCurve|Multisig) as Pack>::(unpack|unpack_unchecked)$')
def _unpack(it, st, args, ctx, raw, m):
    d = con(it, st, args[0])
    if it.P.by_canon.get('<%s as Pack>::%s' % (m.group(1), m.group(2))):
        return None
    key = T('call', '%s::%s' % (m.group(1), m.group(2)), d)
    it.opaque_seen[key.args[0]] = 1
    return [(st, symenum('Result', key, T('unpacked', m.group(1), d, m.group(2))))]


@rx(r'^<(\w+) as Pack>::pack$')
def _pack(it, st, args, ctx, raw, m):
    if it.P.by_canon.get(m.group(0)):
        return None
    v, d = con(it, st, args[0]), con(it, st, args[1])
    st.eff = (st.eff, ('pack', m.group(1), v, d, ctx.span))
    return [(st, symenum('Result', T('packres', m.group(1), d), UNIT))]


@rx(r'(^|::)next_account_info$')
def _nai(it, st, args, ctx, raw, m):
    return iter_next(it, st, args[0], 'Result')


@rx(r'^<AccountInfo as Accounts>::try_accounts$')
def _tryacc(it, st, args, ctx, raw, m):
    p = args[1]
    s = con(it, st, p)
    q = p
    while True:
        v = it.read(st, ('cell',) + q.args) if q.op == 'ptr' else None
        if v is not None and v.op == 'ptr':
            q = v
        else:
            break
    if q.op == 'ptr':
        it.write(st, ('cell',) + q.args, view(s, 1, None))
    else:
        return None
    return [(st, symenum('Result', T('chk_nextacct', idx(s, 0)), idx(s, 0)))]


@rx(r'^<.* as AccountsExit>::exit$')
def _exit(it, st, args, ctx, raw, m):
    if it.P.by_canon.get(m.group(0)):
        return None
    return [(st, symenum('Result', T('exit', con(it, st, args[0])), UNIT))]


@rx(r'^anchor_lang::context::Context::new$|^Context::new$')
def _ctxnew(it, st, args, ctx, raw, m):
    return [(st, agg('Context', None, *args))]


@rx(r'^<(\w+) as BorshDeserialize>::(deserialize|try_from_slice)$|^<(\w+) as AnchorDeserialize>::\w+$')
def _deser(it, st, args, ctx, raw, m):
    t = m.group(1) or m.group(3)
    key = T('call', 'deserialize', T('str', t), con(it, st, args[0]))
    return [(st, symenum('Result', key, T('ixarg', t)))]


# ------------------------------------------------------------------ keys / PDAs / CPI
@rx(r'Pubkey::(create_program_address)$')
def _cpa(it, st, args, ctx, raw, m):
    s, p = con(it, st, args[0]), con(it, st, args[1])
    k = T('pda', s, p)
    return [(st, symenum('Result', k, k))]


@rx(r'Pubkey::(find_program_address)$')
def _fpa(it, st, args, ctx, raw, m):
    s, p = con(it, st, args[0]), con(it, st, args[1])
    return [(st, agg('tuple', None, T('fpda', s, p), T('bump', s, p)))]


@rx(r'^<(\[.*\]|&?\[u8\]|Vec) as (AsRef|AsMut|Borrow|BorrowMut)>::(as_ref|as_mut|borrow|borrow_mut)$')
def _as_ref(it, st, args, ctx, raw, m):
    return [(st, args[0])]


@rx(r'Pubkey::(to_bytes|as_ref)$|^<Pubkey as AsRef>::as_ref$')
def _tb(it, st, args, ctx, raw, m):
    return [(st, mkbytes(con(it, st, args[0])))]


def mkbytes(v):
    return v.args[0] if v.op == 'key' else T('bytes', v)


@rx(r'Pubkey::(new_from_array|new)$')
def _nfa(it, st, args, ctx, raw, m):
    v = con(it, st, args[0])
    return [(st, v.args[0] if v.op == 'bytes' else T('key', v))]


@model('<Pubkey as Default>::default')
def _pkd(it, st, args, ctx, raw, m):
    return [(st, T('key', agg('array', None, *[C(0)] * 32)))]


@rx(r'^core::str::<impl str>::parse$|^<Pubkey as FromStr>::from_str$|Pubkey::from_str$')
def _parse(it, st, args, ctx, raw, m):
    k = T('call', 'parse', con(it, st, args[0]))
    return [(st, symenum('Result', k, T('parsed', con(it, st, args[0]))))]


@rx(r'^(?:spl_token::instruction::)(\w+)$|^(transfer|burn|mint_to|transfer_checked|mint_to_checked|burn_checked|approve|revoke|close_account|set_authority|freeze_account|thaw_account|initialize_account|initialize_mint)$')
def _splix(it, st, args, ctx, raw, m):
    n = m.group(1) or m.group(2)
    if it.P.by_canon.get(n) and not raw.startswith('spl_token'):
        if not raw.startswith(('transfer', 'burn', 'mint_to')) or len(args) < 5:
            return None
    cs = [con(it, st, a) for a in args]
    return [(st, symenum('Result', T('call', 'spl_token::' + n, *cs), T('ix', n, *cs)))]


@rx(r'(^|::)(invoke_signed|invoke|invoke_signed_unchecked|invoke_unchecked)$')
def _invoke(it, st, args, ctx, raw, m):
    cs = [con(it, st, a) for a in args]
    n = st.epoch + 1
    st.epoch = n
    seeds = cs[2] if len(cs) > 2 else agg('array', None)
    key = T('cpi', n, cs[0])
    st.eff = (st.eff, ('cpi', cs[0], cs[1], seeds, ctx.span, key, st.facts.copy()))
    return [(st, symenum('Result', key, UNIT))]


# ------------------------------------------------------------------ iterators
def iter_items(v):
    """remaining concrete items of an iterator value, or None"""
    if isagg(v, 'iter'):
        src, pos = fields(v)
        if isagg(src, 'array') and pos.op == 'c':
            return list(fields(src))[pos.args[0]:]
        return None
    if isagg(v, 'array'):
        return list(fields(v))
    if isagg(v, 'Range'):
        a, b = fields(v)
        if a.op == 'c' and b.op == 'c' and b.args[0] - a.args[0] <= 6:
            return [C(i) for i in range(a.args[0], b.args[0])]
    if isagg(v, 'RangeInclusive'):
        a, b = fields(v)[:2]
        if a.op == 'c' and b.op == 'c' and b.args[0] - a.args[0] <= 6:
            return [C(i) for i in range(a.args[0], b.args[0] + 1)]
    return None


def mkiter(src):
    return T('agg', 'iter', None, src, C(0))


@rx(r'^(?:core|std)::slice::<impl \[.*\]>::(iter|iter_mut)$|^<.* as IntoIterator>::into_iter$|^Vec::(iter|into_iter)$|^std::array::.*into_iter$')
def _iter(it, st, args, ctx, raw, m):
    v = con(it, st, args[0])
    if isagg(v, 'iter') or isagg(v, 'Range') or isagg(v, 'RangeInclusive'):
        items = iter_items(v)
        if isagg(v, 'iter'):
            return [(st, args[0] if args[0].op != 'ptr' else v)]
        if items is not None:
            return [(st, mkiter(agg('array', None, *items)))]
        return [(st, v)]
    if args[0].op == 'ptr' and isagg(v, 'array') and (m.group(1) == 'iter_mut' or raw.startswith('<&mut')):
        c, l, pr = args[0].args
        return [(st, mkiter(agg('array', None, *[T('ptr', c, l, pr + (('i', i),)) for i in range(len(fields(v)))])))]
    return [(st, mkiter(v))]


def iter_next(it, st, p, kind):
    """p: pointer to an iterator; kind Option or Result (next_account_info)"""
    v = val(it, st, p)
    q = p
    while q.op == 'ptr' and it.read(st, ('cell',) + q.args).op == 'ptr':
        q = it.read(st, ('cell',) + q.args)
    mk = some if kind == 'Option' else ok
    none = NONE if kind == 'Option' else err(agg('ProgramError', 'NotEnoughAccountKeys'))

    def setv(nv):
        if q.op == 'ptr':
            it.write(st, ('cell',) + q.args, nv)
    if isagg(v, 'iter'):
        src, pos = fields(v)
        if isagg(src, 'array') and pos.op == 'c':
            it.mark_round(st)
            k = pos.args[0]
            its = fields(src)
            if k < len(its):
                setv(T('agg', 'iter', None, src, C(k + 1)))
                return [(st, mk(its[k]))]
            return [(st, none)]
        if pos.op == 'c':
            if kind == 'Result' and src.op != 'havoc':
                it.mark_round(st)
            e = idx(src, pos.args[0])
            setv(T('agg', 'iter', None, src, C(pos.args[0] + 1)))
            key = T('chk_nextacct', e)
            out = []
            for s2, a in it.force(st, symenum(kind, key, e), kind):
                out.append((s2, a if a.args[1] in ('Some', 'Ok') else none))
            return out
    if isagg(v, 'Range'):
        a, b = fields(v)
        if a.op == 'c' and b.op == 'c' and a.args[0] >= b.args[0]:
            return [(st, none)]
        if a.op == 'c' and b.op == 'c' and b.args[0] - a.args[0] <= 6:
            it.mark_round(st)
            setv(T('agg', 'Range', None, C(a.args[0] + 1), b))
            return [(st, mk(a))]
        it.uid += 1
        h = T('havoc', 'range', it.uid, 0)
        out = []
        s2 = st.copy()
        if s2.facts.assume(mk_lt(a, b), True):
            if q.op == 'ptr':
                it.write(s2, ('cell',) + q.args, T('agg', 'Range', None, h, b))
            out.append((s2, mk(a)))
        s3 = st.copy()
        if s3.facts.assume(mk_lt(a, b), False):
            out.append((s3, none))
        return out
    if isagg(v, 'RangeInclusive') and all(x.op == 'c' for x in fields(v)[:2]):
        a, b = fields(v)[:2]
        setv(T('agg', 'Range', None, a, C(b.args[0] + 1)))
        return iter_next(it, st, p, kind)
    setv(T('adv', v))
    return [(st, symenum(kind, T('next', v), T('item', v)))]


@rx(r'^<.* as (Iterator|DoubleEndedIterator|ExactSizeIterator)>::(\w+)$')
def _iterm(it, st, args, ctx, raw, m):
    k = m.group(2)
    if it.P.by_canon.get(m.group(0)):
        return None
    if k in ('eq', 'ne') and len(args) == 2:          # two whole buffers compared item by item
        u = [con(it, st, x) for x in args]
        u = [fields(x)[0] if isagg(x, 'iter') and fields(x)[1] is C(0) else x for x in u]
        if all(not isagg(x, 'iter') and it.length(x) is not None and it.length(x) is it.length(u[0]) for x in u):
            e = mk_eq(*u)
            return [(st, e if k == 'eq' else mk_not(e))]
        return None
    if k == 'next':
        return iter_next(it, st, args[0], 'Option')
    v = val(it, st, args[0])
    items = iter_items(v)
    if k in ('copied', 'cloned', 'by_ref', 'fuse', 'into_iter', 'peekable'):
        if k in ('by_ref',):
            return [(st, args[0])]
        if k in ('copied', 'cloned') and items is not None:
            return [(st, mkiter(agg('array', None, *[con(it, st, x) for x in items])))]
        return [(st, v)]
    if k == 'zip' and items is None and len(args) == 2:          # two whole buffers taken item by item
        u = [fields(x)[0] if isagg(x, 'iter') and fields(x)[1] is C(0) else x for x in (v, con(it, st, args[1]))]
        if all(not isagg(x, 'iter') and it.length(x) is not None and it.length(x) is it.length(u[0]) for x in u):
            return [(st, mkiter(T('zipped', *u)))]
        return None
    if items is not None:
        if k == 'enumerate':
            return [(st, mkiter(agg('array', None, *[agg('tuple', None, C(i), x) for i, x in enumerate(items)])))]
        if k == 'rev':
            return [(st, mkiter(agg('array', None, *items[::-1])))]
        if k in ('skip', 'take') and con(it, st, args[1]).op == 'c':
            n = con(it, st, args[1]).args[0]
            return [(st, mkiter(agg('array', None, *(items[n:] if k == 'skip' else items[:n]))))]
        if k in ('zip', 'chain'):
            o = iter_items(con(it, st, args[1]))
            if o is not None:
                r = [agg('tuple', None, x, y) for x, y in zip(items, o)] if k == 'zip' else items + o
                return [(st, mkiter(agg('array', None, *r)))]
        if k == 'count' or k == 'len':
            return [(st, C(len(items)))]
        if k == 'collect':
            if last_ident(ctx.ty) in ('Vec', 'Box'):
                return [(st, agg('array', None, *items))]
            kind = last_ident(ctx.ty)
            if kind in ('Result', 'Option'):
                inner = split_top(ctx.ty[ctx.ty.index('<') + 1:-1])[0].strip()
                unit, vec = inner == '()', last_ident(inner) in ('Vec', 'Box')

                def go(s, i, acc):
                    if i == len(items):
                        v = UNIT if unit else agg('array', None, *acc)
                        return [(s, ok(v) if kind == 'Result' else some(v))]
                    out = []
                    for s2, a in it.force(s, items[i], kind):
                        out.extend(go(s2, i + 1, acc + [fields(a)[0]]) if a.args[1] in ('Ok', 'Some') else [(s2, a)])
                    return out
                if unit or vec:
                    return go(st, 0, [])
        if k in ('sum', 'product'):
            r = C(0 if k == 'sum' else 1)
            for x in items:
                it.note('wrap', ('add' if k == 'sum' else 'mul', last_ident(ctx.ty)), r, con(it, st, x), st, ctx.span)
                r = binop('add' if k == 'sum' else 'mul', r, con(it, st, x))
            return [(st, r)]
        if k in ('min', 'max') and items:
            r = con(it, st, items[0])
            for x in items[1:]:
                r = binop(k, r, con(it, st, x))
            return [(st, some(r))]
        if k == 'contains':
            return None
        if k in ('any', 'all', 'map', 'for_each', 'fold', 'try_for_each', 'try_fold', 'find', 'position', 'filter'):
            return seq(it, st, k, items, args, ctx)
    if k == 'any' and len(args) == 2:
        return quant(it, st, v, args[1], ctx, True)
    if k == 'all' and len(args) == 2:
        return quant(it, st, v, args[1], ctx, False)
    return None


@rx(r'^(?:core|std)::slice::<impl \[.*\]>::contains$')
def _contains(it, st, args, ctx, raw, m):
    v, x = con(it, st, args[0]), con(it, st, args[1])
    if isagg(v, 'array'):
        r = TRUE
        for y in fields(v):
            r = mk_and(r, mk_not(mk_eq(x, y)))
        return [(st, mk_not(r))]
    return [(st, T('exists', v, mk_eq(T('bound'), x)))]


def quant(it, st, v, clo, ctx, anyp):
    src = fields(v)[0] if isagg(v, 'iter') else v

    def post(s, r):
        r = it.content(s, r)
        t = T('exists', src, r if anyp else mk_not(r))
        if src.op == 'zipped' and (mk_not(r) if anyp else r) is mk_eq(fld(T('bound'), 0), fld(T('bound'), 1)):
            e = mk_eq(*src.args)
            return [(s, mk_not(e) if anyp else e)]
        return [(s, t if anyp else mk_not(t))]
    return it.invoke(st, clo, [T('bound')], ctx, post)


def seq(it, st, k, items, args, ctx):
    """run a closure over concrete items"""
    clo = args[2] if k in ('fold', 'try_fold') else args[1]

    def go(s, i, acc):
        if i == len(items):
            if k == 'any':
                return [(s, FALSE)]
            if k == 'all':
                return [(s, TRUE)]
            if k in ('map', 'filter'):
                return [(s, mkiter(agg('array', None, *acc)))]
            if k == 'for_each':
                return [(s, UNIT)]
            if k in ('find', 'position'):
                return [(s, NONE)]
            if k == 'fold':
                return [(s, acc)]
            okv = UNIT if k == 'try_for_each' else acc
            return [(s, ok(okv) if last_ident(ctx.ty) == 'Result' else some(okv))]
        x = items[i]

        def post(s2, r):
            if k in ('any', 'all', 'find', 'position', 'filter'):
                out = []
                for t in (True, False):
                    s3 = s2.copy()
                    if not s3.facts.assume(r, t):
                        continue
                    if k == 'any' and t:
                        out.append((s3, TRUE))
                    elif k == 'all' and not t:
                        out.append((s3, FALSE))
                    elif k == 'find' and t:
                        out.append((s3, some(x)))
                    elif k == 'position' and t:
                        out.append((s3, some(C(i))))
                    else:
                        out.extend(go(s3, i + 1, (acc + [x]) if k == 'filter' and t else acc))
                return out
            if k == 'map':
                return go(s2, i + 1, acc + [r])
            if k == 'for_each':
                return go(s2, i + 1, acc)
            if k == 'fold':
                return go(s2, i + 1, r)
            kind = last_ident(ctx.ty)
            out = []
            for s3, a in it.force(s2, r, kind):
                if a.args[1] in ('Some', 'Ok'):
                    out.extend(go(s3, i + 1, fields(a)[0] if k == 'try_fold' else acc))
                else:
                    out.append((s3, a))
            return out
        a = [acc, x] if k in ('fold', 'try_fold') else [x]
        return it.invoke(s, clo, a, ctx, post)
    init = args[1] if k in ('fold', 'try_fold') else []
    return go(st, 0, init)


@rx(r'discriminant_value$|mem::discriminant$')
def _dv(it, st, args, ctx, raw, m):
    t = last_ident(ctx.argtys[0]) if ctx.argtys else '?'
    v = val(it, st, args[0])
    return [(st, it.discr(st, v, t))]


@rx(r'mem::(swap|replace|take)$')
def _mem(it, st, args, ctx, raw, m):
    k = m.group(1)
    a = args[0]
    if a.op != 'ptr':
        return None
    va = con(it, st, a)
    if k == 'swap':
        b = args[1]
        vb = con(it, st, b)
        it.write(st, ('cell',) + a.args, vb)
        it.write(st, ('cell',) + b.args, va)
        return [(st, UNIT)]
    if k == 'replace':
        it.write(st, ('cell',) + a.args, args[1])
        return [(st, va)]
    return None


@rx(r'begin_panic|panic_fmt|panicking::|unreachable_display|assert_failed|panic_str')
def _panic(it, st, args, ctx, raw, m):
    it.finish('abort', None, st, ctx.span, 'panic')
    return []
