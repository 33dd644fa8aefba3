"""Stored state: layout, decoding of malformed data, client layout (family E)."""
from .common import *
import subprocess

# the published layout of a pool account (after the version byte): (field, size)
STATE = [('is_initialized', 1), ('bump_seed', 1), ('token_program_id', 32), ('token_a', 32), ('token_b', 32), ('pool_mint', 32),
         ('token_a_mint', 32), ('token_b_mint', 32), ('pool_fee_account', 32), ('fees', 64), ('swap_curve', 33)]
FEES = [(n, 8) for n in ('trade_fee_numerator', 'trade_fee_denominator', 'owner_trade_fee_numerator', 'owner_trade_fee_denominator',
                         'owner_withdraw_fee_numerator', 'owner_withdraw_fee_denominator', 'host_fee_numerator', 'host_fee_denominator')]
TAGS = {'ConstantProduct': 0, 'ConstantPrice': 1, 'Stable': 2, 'Offset': 3, 'LinearPrice': 30}
PARAMS = {'ConstantProduct': [], 'ConstantPrice': ['token_b_price'], 'Stable': ['amp'], 'Offset': ['token_b_offset'],
          'LinearPrice': ['slope_numerator', 'slope_denominator', 'initial_token_a_price_numerator', 'initial_token_a_price_denominator']}
VERSION = 1


def offsets(table):
    out, o = {}, 0
    for n, s in table:
        out[n] = (o, s)
        o += s
    return out, o


def span_of(t, buf):
    """(offset, length) of a byte range of buf; length None = to the end"""
    if t is buf:
        return 0, None
    if t.op == 'view' and t.args[0] is buf:
        return t.args[1], t.args[2]
    if t.op == 'idx' and t.args[0] is buf and is_int(t.args[1]):
        return int_of(t.args[1]), 1
    return None


def is_int(t):
    return isinstance(t, int) or isinstance(t, T) and t.op == 'c'


def int_of(t):
    return t if isinstance(t, int) else t.args[0]


def reads(t, buf):
    """(offset, size) of the bytes a decoded field value is made of"""
    if t.op == 'le':
        s = span_of(t.args[1], buf)
        return s and (s[0], t.args[0])
    if t.op == 'key':
        s = span_of(t.args[0], buf)
        return s and (s[0], 32)
    return span_of(t, buf)


def writes(p, buf):
    """[(offset, size, value)] of the stores on a path"""
    out = []
    for e in p.effects:
        if e[0] == 'store':
            s = span_of(e[1], buf)
            v = e[2]
            if s is None:
                out.append((None, None, e[1]))
            elif v.op == 'lebytes':
                out.append((s[0], v.args[0], v.args[1]))
            elif v.op == 'bytes':
                out.append((s[0], 32, v.args[0]))
            elif isagg(v, 'array') and s[1] in (None, len(v.args[2:])):
                out.extend((s[0] + i, 1, x) for i, x in enumerate(v.args[2:]))
            else:
                out.append((s[0], s[1], v))
        elif e[0] == 'opaque_mut':
            s = span_of(e[2], buf)
            out.append((s[0] if s else None, s[1] if s else None, e[4] if len(e) > 4 else e[2]))
        elif e[0] == 'pack':
            s = span_of(e[3], buf)
            out.append((s[0] if s else None, s[1] if s else None, T('packed', e[1], e[2])))
    return out


def const_of(ck, name):
    r = ck.root(name)
    vs = [p.val for p in r.paths if p.kind == 'ret']
    return int_of(vs[0]) if len(vs) == 1 and is_int(vs[0]) else None


def covers(ck, rule, w, ws, total, key):
    """the writes cover the record without overlap"""
    spans = sorted((o, n) for o, n, v in ws if o is not None and n is not None)
    pos, ok = 0, len(spans) == len(ws)
    for o, n in spans:
        ok = ok and o == pos
        pos = o + n
    ck.ob(rule, w, ok and pos == total, lambda: 'bytes written: %s, record length %d' % (spans, total), key)


@prop('E01')
def e01(ck):
    ck.rule('state-layout', 'encoding writes each recorded field of the pool at its published offset, decoding reads it from the same bytes, the fields '
            'do not overlap and fill the record; an account is one version byte followed by the record')
    P = ck.prog()
    off, total = offsets(STATE)
    ck.ob('state-layout:length', 'record', const_of(ck, '<SwapV1 as Pack>::LEN') == total, 'record length is not %d' % total, 'state-len')
    ck.ob('state-layout:account length', 'account', const_of(ck, 'SwapVersion::LATEST_LEN') == total + 1, 'account length is not %d' % (total + 1), 'account-len')
    r = ck.root('<SwapV1 as Pack>::unpack_from_slice', opaque=['<Fees as Pack>::unpack_from_slice', '<SwapCurve as Pack>::unpack_from_slice'])
    ck.need(len(r.ok), 'success paths of decoding the pool state')
    buf = r.arg(0)
    for p in r.ok:
        v = payload(p)
        for n, (o, s) in off.items():
            f = fld(v, P.fidx('SwapV1', n))
            if n == 'is_initialized':
                want = {C(0): FALSE, C(1): TRUE}
                ok = any(p.facts.eq(idx(buf, o), k) and (f is x or p.facts.eq(f, x)) for k, x in want.items()) or \
                    p.facts.bounds(idx(buf, o))[1] == 1 and f is mk_not(mk_eq(idx(buf, o), C(0))) or f is mk_eq(idx(buf, o), C(1)) or f is mk_not(mk_eq(idx(buf, o), C(0)))
                ck.ob('state-layout:decode ' + n, 'record', ok, lambda: 'decoded as %s' % pp(f), 'decode:' + n)
            elif n in ('fees', 'swap_curve'):
                ty = 'Fees' if n == 'fees' else 'SwapCurve'
                cs = [x for x in walk(f) if x.op == 'call' and x.args[0].startswith('<%s as Pack>' % ty) or x.op == 'unpacked' and x.args[0] == ty]
                got = span_of(cs[0].args[1], buf) if cs else None
                ck.ob('state-layout:decode ' + n, 'record', bool(cs) and got is not None and got[0] == o and (got[1] is None or got[1] >= s),
                      lambda: 'decoded from %s' % pp(f), 'decode:' + n)
            else:
                ck.ob('state-layout:decode ' + n, 'record', reads(f, buf) is not None and reads(f, buf)[0] == o,
                      lambda: 'decoded from %s, published offset %d' % (pp(f), o), 'decode:' + n)
    r = ck.root('<SwapV1 as Pack>::pack_into_slice', opaque=['<Fees as Pack>::pack_into_slice', '<SwapCurve as Pack>::pack_into_slice'])
    ck.need(len(r.ok), 'paths of encoding the pool state')
    slf, buf = r.args
    for p in r.ok:
        ws = writes(p, buf)
        # a nested encoder gets an array of its own record's size out of the split (its extent is checked by E02, E03)
        nested = {off['fees'][0]: 64, off['swap_curve'][0]: 33}
        ws = [(o, nested[o] if v.op in ('call', 'packed') and o in nested and (n is None or n >= nested[o]) else n, v) for o, n, v in ws]
        covers(ck, 'state-layout:encode covers the record', 'record', ws, total, 'encode-cover')
        for n, (o, s) in off.items():
            at_ = [x for x in ws if x[0] == o]
            f = fld(slf, P.fidx('SwapV1', n))
            ok = False
            for _, sz, v in at_:
                if n == 'is_initialized':
                    ok = v is T('b2i', f) or (v is C(1) and p.facts.decide(f) is True) or (v is C(0) and p.facts.decide(f) is False)
                elif n in ('fees', 'swap_curve'):
                    ok = v.op == 'call' and v.args[1] is f or v.op == 'packed' and v.args[1] is f
                else:
                    ok = v is f
            ck.ob('state-layout:encode ' + n, 'record', ok and len(at_) == 1, lambda: 'writes at offset %d: %s' % (o, [pp(x[2]) for x in at_]), 'encode:' + n)
    # nothing that encoding writes is refused
    r = ck.root('<SwapV1 as Pack>::unpack_from_slice', opaque=['<Fees as Pack>::unpack_from_slice', '<SwapCurve as Pack>::unpack_from_slice'])
    refusals(ck, 'state-layout', r, 'record', lambda F, b: all(F.decide(mk_eq(idx(b, 0), C(k))) is False for k in (0, 1)))
    refusals(ck, 'state-layout', ck.root('SwapVersion::unpack'), 'account', lambda F, b: F.decide(mk_eq(idx(b, 0), C(VERSION))) is False or
             any(x.op in ('len', 'chk_nonempty') for t, _ in F.literals() for x in walk(t)))
    # account = version byte + record
    r = ck.root('SwapVersion::pack')
    ck.need(len(r.ok), 'paths of SwapVersion::pack')
    buf = r.arg(1)
    for p in r.ok:
        ws = writes(p, buf)
        ver = [v for o, n, v in ws if o == 0 and n == 1]
        rec = [v for o, n, v in ws if o == 1 and v.op == 'packed']
        ck.ob('state-layout:version byte', 'account', len(ver) == 1 and ver[0] is C(VERSION), lambda: str([pp(v) for v in ver]), 'version')
        ck.ob('state-layout:record after the version byte', 'account', len(rec) == 1 and rec[0].args[0] == 'SwapV1' and len(ws) == 2, lambda: str(ws)[:200], 'account-record')
    r = ck.root('SwapVersion::unpack')
    buf = r.arg(0)
    for p in r.ok:
        us = [x for x in walk(p.val) if x.op == 'unpacked']
        ok = len(us) == 1 and us[0].args[0] == 'SwapV1' and span_of(us[0].args[1], buf) == (1, None)
        ck.ob('state-layout:decode record after the version byte', 'account', ok, lambda: pp(p.val)[:200], 'account-decode')


def payload(p):
    v = p.val
    if v.op == 'agg' and v.args[1] in ('Ok', 'Some'):
        return v.args[2]
    return fld(v, 0, 'Ok')


def refusals(ck, rule, r, w, reason=None):
    """decoding refuses only what encoding never writes: an unknown flag, version or tag, or a part that does not decode"""
    for p in r.bad:
        F = p.facts
        nested = any(v in ('Err', 'None') and t.op == 'call' and 'unpack' in t.args[0] for t, v in F.var.items())
        ck.ob(rule + ':decode accepts what is encoded', w, nested or (reason is not None and reason(F, r.arg(0))),
              lambda: 'data that encoding can write is refused with %s when %s' % (pp(p.val), '; '.join(('' if tr else 'not ') + pp(t) for t, tr in F.literals())[:300]),
              'refuses:' + w)
    ck.ob(rule + ':decode accepts what is encoded', w, bool(r.ok), 'decoding never succeeds', 'decodes:' + w)


@prop('E02')
def e02(ck):
    ck.rule('fees-layout', 'the eight fee numbers are encoded little endian, in the published order, and decoded from the same bytes')
    P = ck.prog()
    off, total = offsets(FEES)
    ck.ob('fees-layout:length', 'fees', const_of(ck, '<Fees as Pack>::LEN') == total, 'fee record length is not %d' % total, 'fees-len')
    r = ck.root('<Fees as Pack>::unpack_from_slice')
    ck.need(len(r.ok), 'success paths of decoding fees')
    refusals(ck, 'fees-layout', r, 'fees')
    for p in r.ok:
        for n, (o, s) in off.items():
            f = fld(payload(p), P.fidx('Fees', n))
            ck.ob('fees-layout:decode ' + n, 'fees', f.op == 'le' and reads(f, r.arg(0)) == (o, s), lambda: 'decoded from %s, published offset %d' % (pp(f), o), 'decode:' + n)
    r = ck.root('<Fees as Pack>::pack_into_slice')
    ck.need(len(r.ok), 'paths of encoding fees')
    for p in r.ok:
        ws = writes(p, r.arg(1))
        covers(ck, 'fees-layout:encode covers the record', 'fees', ws, total, 'encode-cover')
        for n, (o, s) in off.items():
            f = fld(r.arg(0), P.fidx('Fees', n))
            ck.ob('fees-layout:encode ' + n, 'fees', [x for x in ws if x[0] == o] == [(o, s, f)], lambda: 'writes %s' % str([(x[0], x[1], pp(x[2])) for x in ws]), 'encode:' + n)


@prop('E03')
def e03(ck):
    ck.rule('curve-layout', 'each curve type is encoded as its published tag, followed by the parameters of exactly that curve, little endian; a tag is decoded '
            'to that curve type together with its own calculator, reading the same parameters from the same bytes')
    P = ck.prog()
    ck.ob('curve-layout:length', 'curve', const_of(ck, '<SwapCurve as Pack>::LEN') == 33, 'curve record length is not 33', 'curve-len')
    for c, n in (('ConstantProductCurve', 0), ('ConstantPriceCurve', 8), ('OffsetCurve', 8), ('StableCurve', 8), ('LinearPriceCurve', 32)):
        ck.ob('curve-layout:length', c, const_of(ck, '<%s as Pack>::LEN' % c) == n, 'the parameter record of %s is not %d bytes long' % (c, n), 'curve-len@' + c)
    # decoding
    r = ck.root('<SwapCurve as Pack>::unpack_from_slice')
    ck.need(len(r.ok), 'success paths of decoding a curve')
    buf = r.arg(0)
    seen = {}
    ti, ci = P.fidx('SwapCurve', 'curve_type'), P.fidx('SwapCurve', 'calculator')
    for p in r.ok:
        v = payload(p)
        ty, c = fld(v, ti), fld(v, ci)
        tag = [k for k in range(256) if p.facts.eq(idx(buf, 0), C(k))]
        name = p.facts.variant(ty) or (ty.args[1] if ty.op == 'agg' else None)
        w = 'decode %s' % name
        ck.ob('curve-layout:tag', w, len(tag) == 1 and TAGS.get(name) == tag[0], lambda: 'tag %s is decoded as %s' % (tag, name), 'decode-tag:%s' % (tag[0] if tag else '?'))
        seen[name] = tag
        ok = c.op == 'dyn' and c.args[1] == '%sCurve' % name
        ck.ob('curve-layout:calculator', w, ok, lambda: '%s is given the calculator %s' % (name, pp(c)[:120]), 'decode-calc:%s' % name)
        if ok:
            for i, n in enumerate(PARAMS[name]):
                f = fld(c.args[0], P.fidx('%sCurve' % name, n))
                ck.ob('curve-layout:decode parameter', '%s %s' % (name, n), f.op == 'le' and reads(f, buf) == (1 + 8 * i, 8), lambda: 'decoded from %s' % pp(f), 'decode-param:%s.%s' % (name, n))
    refusals(ck, 'curve-layout', r, 'curve', lambda F, b: all(F.decide(mk_eq(idx(b, 0), C(k))) is False for k in TAGS.values()))
    for name in PARAMS:
        refusals(ck, 'curve-layout', ck.root('<%sCurve as Pack>::unpack_from_slice' % name), 'parameters of ' + name)
    ck.ob('curve-layout:every published curve decodes', 'curve', set(seen) == set(TAGS), lambda: str(seen), 'decode-all')
    # encoding
    r = ck.root('<SwapCurve as Pack>::pack_into_slice')
    ck.need(len(r.ok), 'paths of encoding a curve')
    slf, buf = r.args
    en = dict(P.enums.get('CurveType', []))
    for p in r.ok:
        ws = writes(p, buf)
        tag = [v for o, n, v in ws if o == 0 and n == 1]
        ok = len(tag) == 1
        if ok:
            t, name = tag[0], p.facts.variant(fld(slf, ti))
            ok = (t.op == 'discr' and t.args[0] is fld(slf, ti) and en == TAGS) or (name is not None and is_int(t) and TAGS.get(name) == int_of(t))
        ck.ob('curve-layout:encoded tag', 'curve', ok, lambda: 'writes the tag %s with %s' % ([pp(x) for x in tag], en), 'encode-tag')
        rest = [x for x in ws if x[0] != 0]
        ok = len(rest) == 1 and rest[0][0] == 1 and rest[0][2].op == 'call' and rest[0][2].args[0].endswith('DynPack>::pack_into_slice') and \
            rest[0][2].args[1] is fld(slf, ci)
        ck.ob('curve-layout:parameters after the tag', 'curve', ok, lambda: str([(x[0], pp(x[2])) for x in rest])[:300], 'encode-params')
    for name, ps in PARAMS.items():
        for tr in ('DynPack', 'Pack'):
            r = ck.root('<%sCurve as %s>::pack_into_slice' % (name, tr))
            ck.need(len(r.ok), 'paths of encoding %s' % name)
            for p in r.ok:
                ws = sorted(writes(p, r.arg(1)), key=lambda x: (x[0] is None, x[0]))
                want = [(8 * i, 8, fld(r.arg(0), P.fidx('%sCurve' % name, n))) for i, n in enumerate(ps)]
                ck.ob('curve-layout:encode parameters', '%s (%s)' % (name, tr), ws == want, lambda: 'writes %s' % [(o, s, pp(v)) for o, s, v in ws], 'encode-params:%s.%s' % (name, tr))


def as_bytes(t):
    """the bytes a compared value stands for, when it is a piece of a byte buffer of known length"""
    if t.op == 'view' and t.args[2] is not None:
        return [idx(t, i) for i in range(t.args[2])]
    n = {'updv': lambda: as_bytes(t.args[0]), 'agg': lambda: fields(t) if isagg(t, 'array') else None}.get(t.op, lambda: None)()
    return [idx(t, i) for i in range(len(n))] if n else [t]


@prop('E04')
def e04(ck):
    ck.rule('equality', 'two values of each comparable type of the program are found equal on exactly the paths on which every field is established equal (a curve: '
            'its type and every byte its calculator encodes), and found different only where some field is established different')
    ck.rule('copies', 'the copy of a value has every field of the value')
    ck.rule('defaults', 'a default curve is a constant product curve whose recorded type agrees with its calculator, a default pool is not initialized')
    P = ck.prog()

    def sides(r):
        a, b = r.args
        return lambda t: subst(t, lambda x: b if x is a else None)
    n = 0
    for c in sorted(P.by_canon):
        m = re.match(r'^<(\w+) as (PartialEq|Clone)>::(eq|clone)$', c)
        if not m or m.group(1) not in P.structs and m.group(1) not in P.enums:
            continue
        X, tr = m.group(1), m.group(2)
        n += 1
        if X == 'SwapCurve' and tr == 'PartialEq':
            r = ck.root(c)
        else:
            r = ck.root(c, opaque=('<SwapCurve as PartialEq>::eq', '<Fees as PartialEq>::eq', '<Fees as Clone>::clone', '<SwapCurve as Clone>::clone'))
        ck.need(len(r.paths), 'paths of ' + c)
        me = r.args[0]
        parts = [me] if X in P.enums else [fld(me, i) for i in range(len(P.structs[X]))]
        if tr == 'Clone':
            for p in r.paths:
                v = p.val
                for i, x in enumerate(parts):
                    got = v if X in P.enums else fld(v, i)
                    same = p.facts.eq(got, x) or got is x or got.op == 'call' and got.args[0].endswith(' as Clone>::clone') and got.args[1] is x or \
                        X in P.enums and got.op == 'agg' and p.facts.variant(x) == got.args[1]
                    ck.ob('copies', '%s, part %d' % (X, i), same, lambda: 'the copy has %s for %s' % (pp(got)[:120], pp(x)[:60]), 'copy@' + X)
            continue
        other = sides(r)
        want = set()
        if X == 'SwapCurve':
            ti, ci = P.fidx('SwapCurve', 'curve_type'), P.fidx('SwapCurve', 'calculator')
        for p in r.paths:
            for res in (True, False):
                F = p.facts.copy()
                if not F.assume(p.val, res):
                    continue
                lits = list(F.literals())

                def cmp(l):
                    """the value of self compared with the same value of other by the literal"""
                    if l.op == 'eq' or l.op == 'call' and l.args[0].endswith(' as PartialEq>::eq'):
                        x, y = l.args[-2:]
                        x, y = (x, y) if other(x) is y else (y, x)
                        return x if other(x) is y and x is not y else None
                eqs = [cmp(l) for l, t in lits if t]
                got = {b for x in eqs if x is not None for b in as_bytes(x)}

                def encoded(y):
                    """all bytes of a number are among the compared bytes"""
                    return any({idx(T('lebytes', n, y), i) for i in range(n)} <= got for n in (1, 2, 4, 8, 16))

                def parted(l):
                    return [z for a in l.args for z in parted(a)] if l.op == 'and' else [l]
                if X == 'SwapCurve':
                    outs = [b.args[0] for b in got if b.op == 'idx'] + [b for b in got if b.op == 'out']
                    outs = [o for o in outs if o.op == 'out' and o.args[0].op == 'call' and o.args[0].args[0].endswith('DynPack>::pack_into_slice')
                            and o.args[0].args[1] is fld(me, ci)]
                    ty = any(b.op == 'discr' and b.args[0] is fld(me, ti) or b is fld(me, ti) for b in got)
                    full = ty and any(all(idx(o, i) in got for i in range(32)) or o in got for o in outs)
                elif X in P.enums:
                    full = any(x is not None and (x is me or x.op == 'discr' and x.args[0] is me) for x in eqs) or \
                        F.variant(me) is not None and F.variant(me) == F.variant(r.args[1])
                else:
                    full = all(any(x is y for x in eqs) or F.eq(y, other(y)) or any(x is not None and x.op == 'discr' and x.args[0] is y for x in eqs)
                               or encoded(y)
                               for y in parts)
                if res:
                    ck.ob('equality', '%s found equal' % X, full, lambda: 'compares only %s' % [pp(x)[:80] for x in eqs if x is not None], 'equal@' + X)
                else:
                    diff = any(all(cmp(k) is not None for k in parted(l)) for l, t in lits if not t) or any(F.ne(y, other(y)) for y in parts) or \
                        X in P.enums and None not in (F.variant(me), F.variant(r.args[1])) and F.variant(me) != F.variant(r.args[1])
                    ck.ob('equality', '%s found different' % X, diff, 'no part is established different', 'different@' + X)
    ck.need(n >= 6, 'comparison and copy functions of the program')
    r = ck.root('<SwapCurve as Default>::default')
    ck.need(len(r.paths), 'the default curve')
    for p in r.paths:
        ty, c = fld(p.val, P.fidx('SwapCurve', 'curve_type')), fld(p.val, P.fidx('SwapCurve', 'calculator'))
        ck.ob('defaults', 'curve', ty.op == 'agg' and ty.args[1] == 'ConstantProduct' and c.op == 'dyn' and c.args[1] == 'ConstantProductCurve',
              lambda: 'a default curve has type %s and calculator %s' % (pp(ty), pp(c)), 'default@SwapCurve')
    for X, f in (('SwapV1', 'is_initialized'),):
        for p in ck.root('<%s as Default>::default' % X).paths:
            v = fld(p.val, P.fidx(X, f))
            ck.ob('defaults', 'pool', v is FALSE or p.facts.decide(v) is False, lambda: 'a default pool has initialized %s' % pp(v), 'default@' + X)


ERRS = {}


@prop('E05')
def e05(ck):
    ck.rule('reject-malformed', 'decoding succeeds only for version byte 1, an initialized flag of 0 or 1, a known curve tag and a record of the exact length; '
            'every trading instruction decodes through the entry point that also demands the initialized flag')
    P = ck.prog()
    r = ck.root('SwapVersion::unpack')
    ck.need(len(r.ok), 'success paths of decoding an account')
    buf = r.arg(0)
    for p in r.ok:
        F = p.facts
        ck.ob('reject-malformed:version', 'account', F.eq(idx(buf, 0), C(VERSION)), 'a version byte other than 1 is accepted', 'version-any')
        us = [x for x in walk(p.val) if x.op == 'unpacked']
        ck.ob('reject-malformed:length and initialized flag checked', 'account', len(us) == 1 and us[0].args[2] == 'unpack' and
              F.variant(T('call', 'SwapV1::unpack', us[0].args[1])) == 'Ok', lambda: pp(p.val)[:200], 'unpack-unchecked')
    r = ck.root('<SwapV1 as IsInitialized>::is_initialized')
    for p in r.paths:
        ck.ob('reject-malformed:initialized flag', 'record', p.kind == 'ret' and (p.val is fld(r.arg(0), P.fidx('SwapV1', 'is_initialized')) or
              p.facts.decide(fld(r.arg(0), P.fidx('SwapV1', 'is_initialized'))) == (p.val is TRUE)), lambda: pp(p.val), 'is-initialized')
    r = ck.root('<SwapV1 as Pack>::unpack_from_slice', opaque=['<Fees as Pack>::unpack_from_slice', '<SwapCurve as Pack>::unpack_from_slice'])
    buf = r.arg(0)
    flag = idx(buf, 0)
    for p in r.ok:
        F = p.facts
        ck.ob('reject-malformed:flag', 'record', F.bounds(flag)[1] in (0, 1), 'an initialized flag other than 0 or 1 is accepted', 'flag-any')
        for ty in ('Fees', 'SwapCurve'):
            cs = [t for t in F.var if t.op == 'call' and t.args[0].startswith('<%s as Pack>' % ty)] + [x for x in walk(p.val) if x.op == 'unpacked' and x.args[0] == ty]
            ck.ob('reject-malformed:failure to decode %s is reported' % ty, 'record', bool(cs), 'part of the record is not decoded', 'nested:' + ty)
    r = ck.root('<SwapCurve as Pack>::unpack_from_slice')
    tag = idx(r.arg(0), 0)
    for p in r.ok:
        ck.ob('reject-malformed:curve tag', 'curve', any(p.facts.eq(tag, C(k)) for k in TAGS.values()), 'an unknown curve tag is accepted', 'tag-any')
    for q in ('SwapVersion::unpack', '<SwapV1 as Pack>::unpack_from_slice', '<SwapCurve as Pack>::unpack_from_slice'):
        r = ck.root(q)
        ck.ob('reject-malformed:no abort while decoding', q, not r.aborts, 'decoding can abort instead of returning an error', 'decode-abort:' + q)
    for k in TRADE_INSTR + ['swap_host']:
        I = ck.instr(k)
        for p in I.ok:
            ck.ob('reject-malformed:trades demand initialized state', k, p.facts.variant(T('call', 'SwapV1::unpack', view(I.data('pool_state'), 1, None))) == 'Ok' and
                  p.facts.eq(idx(I.data('pool_state'), 0), C(VERSION)), 'a trade succeeds without decoding an initialized pool', 'trade-decode:' + k)


CLIENT = {'version': ('u8', 'version'), 'isInitialized': ('u8', 'is_initialized'), 'bumpSeed': ('u8', 'bump_seed'), 'tokenProgramId': ('publicKey', 'token_program_id'),
          'tokenAccountA': ('publicKey', 'token_a'), 'tokenAccountB': ('publicKey', 'token_b'), 'tokenPool': ('publicKey', 'pool_mint'), 'mintA': ('publicKey', 'token_a_mint'),
          'mintB': ('publicKey', 'token_b_mint'), 'feeAccount': ('publicKey', 'pool_fee_account'), 'tradeFeeNumerator': ('uint64', 'trade_fee_numerator'),
          'tradeFeeDenominator': ('uint64', 'trade_fee_denominator'), 'ownerTradeFeeNumerator': ('uint64', 'owner_trade_fee_numerator'),
          'ownerTradeFeeDenominator': ('uint64', 'owner_trade_fee_denominator'), 'ownerWithdrawFeeNumerator': ('uint64', 'owner_withdraw_fee_numerator'),
          'ownerWithdrawFeeDenominator': ('uint64', 'owner_withdraw_fee_denominator'), 'hostFeeNumerator': ('uint64', 'host_fee_numerator'),
          'hostFeeDenominator': ('uint64', 'host_fee_denominator'), 'curveType': ('u8', 'swap_curve'), 'curveParameters': ('blob', '')}
SIZE = {'u8': 1, 'publicKey': 32, 'uint64': 8}


LOADED = ['tokenProgramId', 'poolToken', 'feeAccount', 'tokenAccountA', 'tokenAccountB', 'mintA', 'mintB', 'tradeFeeNumerator', 'tradeFeeDenominator', 'ownerTradeFeeNumerator', 'ownerTradeFeeDenominator',
          'ownerWithdrawFeeNumerator', 'ownerWithdrawFeeDenominator', 'hostFeeNumerator', 'hostFeeDenominator', 'curveType']


@prop('E06')
def e06(ck):
    ck.rule('client-layout', 'the client library decodes each field of a pool account from the offset the program writes it at, and names curve types by the program\'s tags')
    src = os.path.join(REPO, 'app', 'src')
    js = os.path.join(VERIF, 'bin', 'ts-layout.js')
    r = subprocess.run(['node', js, os.path.join(src, 'index.ts'), os.path.join(src, 'layout.ts')], capture_output=True, text=True, timeout=120)
    if r.returncode:
        raise Anchor('client layout not found: ' + r.stderr[-300:])
    d = json.loads(r.stdout)
    off, total = offsets(STATE)
    foff, _ = offsets(FEES)
    where_ = {'version': 0}
    for n, (o, s) in off.items():
        where_[n] = o + 1
    for n, (o, s) in foff.items():
        where_[n] = off['fees'][0] + 1 + o
    where_[''] = off['swap_curve'][0] + 2
    pos, seen = 0, set()
    for f in d['layout']:
        n = f['name']
        seen.add(n)
        size = SIZE.get(f['kind'], f.get('size'))
        want = CLIENT.get(n)
        ck.ob('client-layout:field', n, want is not None and f['kind'] == want[0] and where_[want[1]] == pos,
              lambda: 'client reads %s (%s) at offset %s, program writes it at %s' % (n, f['kind'], pos, want and where_[want[1]]), 'client-field:' + n)
        pos = pos + size if size is not None else -1
    ck.ob('client-layout:complete', 'TokenSwapLayout', seen == set(CLIENT) and pos == total + 1, lambda: 'fields %s, length %d' % (sorted(seen ^ set(CLIENT)), pos), 'client-complete')
    en = dict(ck.prog().enums.get('CurveType', []))
    for n, v in d['curveType'].items():
        ck.ob('client-layout:curve tag', n, en.get(n) == v, lambda: 'client says %s = %s, program says %s' % (n, v, en.get(n)), 'client-tag:' + n)
    ck.need(len(d['curveType']), 'curve types in the client')
    for n, k in (('uint64', 8), ('publicKey', 32)):
        ck.ob('client-layout:primitive', n, d['prims'].get(n) == k, lambda: '%s occupies %s bytes' % (n, d['prims'].get(n)), 'client-prim:' + n)
    ck.rule('client-number', 'stored 64-bit numbers are read with their last byte as the most significant one')
    u = d['u64']
    if u is not None:                                       # another way of decoding is left alone
        ck.ob('client-number', 'Numberu64.fromBuffer', u.get('o') == [7, 6, 5, 4, 3, 2, 1, 0], lambda: u.get('wrong') or 'bytes are read in the order %s, most significant first' % u.get('o'), 'client-number')
    ck.rule('client-refuse', 'accounts of other programs and uninitialized accounts are refused, and decoding starts at the start of the account')
    for n, what in (('checksFlag', 'an uninitialized account'), ('checksOwner', 'an account of another program')):
        ck.ob('client-refuse', what, d[n] not in ('wrong', 'never'), lambda: what + ' is not refused', 'client-' + n)
    ck.ob('client-refuse', 'account data', not d['cut'], lambda: 'part of the data is skipped: %s' % d['cut'], 'client-cut')
    for x in d['seeds']:
        ck.ob('client-refuse:authority', 'findProgramAddress', x['n'] in (1, None), lambda: 'the authority is derived from %s' % x['seed'], 'client-authority')
    ck.rule('client-load', 'a pool loaded by the client carries in each property the decoded field of the same meaning')
    ck.need(len(d['load']), 'construction of a loaded pool in the client')
    want = {n: ({'poolToken': 'tokenPool'}.get(n, n)) for n in LOADED}
    for m in d['load']:
        for n, f in want.items():
            if n not in m and n not in d['props']:
                continue                                    # the client no longer has such a property
            got = m.get(n)
            ck.ob('client-load', n, got == [f] or got == ['*'], lambda: '%s is filled from %s' % (n, got), 'client-load:' + n)
    for q, e in d['props'].items():
        if q in want and e in d['load'][0]:
            ck.ob('client-load:property', q, e == q, lambda: 'property %s is set from %s' % (q, e), 'client-prop:' + q)
