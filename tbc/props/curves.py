"""Pricing rules of the curves and the fee arithmetic (families D, F, G)."""
from .common import *
from ..real import Real, padd, pmul, ONE, ptext

DFS = ['DFSPreciseNumber::' + m for m in ('checked_mul', 'checked_div', 'checked_add', 'checked_sub', 'sqrt_u64', 'floor', 'ceiling',
                                          'to_imprecise', 'new')]


def calc(ck, curve, m, opaque=()):
    return ck.root('<%s as CurveCalculator>::%s' % (curve, m), opaque=list(opaque))


def q(n, d=1):
    """spec value: quotient of integer terms, as the tuple Real.of returns"""
    return (n, d)


class Spec:
    """builds exact spec values over Real's polynomials"""

    def __init__(self, R):
        self.R = R

    def v(self, t):
        if isinstance(t, int):
            return ({(): t} if t else {}, ONE, '=', 0)
        if isinstance(t, tuple):
            return t
        return self.R.of(t)

    def add(self, a, b, k=1):
        return self.R.lin(self.v(a), self.v(b), k, '=')

    def sub(self, a, b):
        return self.add(a, b, -1)

    def mul(self, *xs):
        n, d = ONE, ONE
        for x in xs:
            x = self.v(x)
            n, d = pmul(n, x[0]), pmul(d, x[1])
        return n, d, '=', 0

    def div(self, a, b):
        a, b = self.v(a), self.v(b)
        return pmul(a[0], b[1]), pmul(a[1], b[0]), '=', 0

    def sqrt(self, a):
        a = self.v(a)
        return self.R.sqrt(a[0], a[1]), ONE, '=', 0


def payload(p):
    """value of a Some(..) / Ok(..) / symbolic success"""
    v = p.val
    if v.op == 'agg':
        return v.args[2] if len(v.args) > 2 else UNIT
    return fld(v, 0, 'Ok' if v.args[0] == 'Result' else 'Some')


def dirof(p, t):
    v = p.facts.variant(t)
    return v


def value(ck, rule, w, p, R, got, want, dirs=('=', 'dn'), rounds=1, key=None, zero_ok=False):
    """exact value of `got` is `want`, rounded in an allowed direction, at most `rounds` roundings deep"""
    F = p.facts
    if zero_ok and R.N.eq(got, C(0)):
        ck.ob(rule, w + ' (zero)', True)
        return True
    x = R.of(got)
    ok = R.same(got, want)
    k = key or rule
    ck.ob(rule + ':formula', w, ok, lambda: 'computes %s, specified (%s)/(%s)' % (R.text(got), ptext(want[0]), ptext(want[1])), k + ':formula@' + w)
    ck.ob(rule + ':rounding', w, x[2] in dirs, lambda: '%s is rounded %s, allowed %s' % (R.text(got), x[2], dirs), k + ':rounding@' + w)
    ck.ob(rule + ':single rounding', w, x[3] <= rounds, lambda: '%d nested roundings in %s' % (x[3], pp(got)[:300]), k + ':rounds@' + w)
    return ok and x[2] in dirs


# ------------------------------------------------------------------------------------------------ fees

FEES = [('trading_fee', 0, 1), ('owner_trading_fee', 2, 3), ('owner_withdraw_fee', 4, 5), ('host_fee', 6, 7)]


@prop('D04')
def d04(ck):
    ck.rule('fee-value', 'on each success path the fee is 0 when the numerator or the amount is 0, else max(1, floor(amount * numerator '
            '/ denominator)), with its own numerator and denominator')
    P = ck.prog()
    for name, i, j in FEES:
        r = ck.root('Fees::' + name, opaque=[])
        ck.need(len(r.ok), 'success paths of Fees::' + name)
        names = ['trade_fee', 'trade_fee', 'owner_trade_fee', 'owner_trade_fee', 'owner_withdraw_fee', 'owner_withdraw_fee', 'host_fee', 'host_fee']
        num = fld(r.arg(0), P.fidx('Fees', names[i] + '_numerator'))
        den = fld(r.arg(0), P.fidx('Fees', names[i] + '_denominator'))
        amt = r.arg(1)
        for p in r.ok:
            F, N = p.facts, Norm(p.facts)
            R = Real(F)
            S = Spec(R)
            v = payload(p)
            zero = F.eq(num, C(0)) or F.eq(amt, C(0))
            if zero:
                ck.ob('fee-value', name, N.eq(v, C(0)), lambda: 'fee %s charged for a zero rate or amount' % pp(v), 'fee-zero@' + name)
                continue
            parts = v.args if v.op == 'max' else (v,)
            exact = S.div(S.mul(amt, num), den)
            one = [x for x in parts if N.eq(x, C(1))]
            quo = [x for x in parts if not N.eq(x, C(1))]
            ok = False
            if len(quo) == 1 and len(parts) <= 2:
                x = R.of(quo[0])
                ok = R.same(quo[0], exact) and x[2] in ('=', 'dn') and x[3] <= 1 and x[1] != ONE and (bool(one) or N.gt0(quo[0]))
            elif one and not quo:
                qs = [t for lit, tr in F.literals() for t in walk(lit) if t.op == 'div']
                Z = Real(Facts())
                ex = Spec(Z).div(Spec(Z).mul(amt, num), den)
                ok = any(Z.same(t, ex) and Z.of(t)[3] <= 1 and F.eq(t, C(0)) for t in qs) or F.decide(binop('lt', binop('mul', amt, num), den)) is True
            # a minimum of one is only due when neither the rate nor the amount is zero
            if ok and not (len(quo) == 1 and not one):
                ok = N.gt0(num) and N.gt0(amt) or N.gt0(binop('mul', amt, num))
            ck.ob('fee-value', name, ok, lambda: 'fee is %s under %s' % (pp(v), [pp(l) for l, t in F.literals()][-3:]), 'fee-value@' + name)
        for p in r.bad:
            # refusing to compute is only allowed for overflow or a zero denominator
            l = p.facts.literals()
            ck.ob('fee-failure', name, any(t and x.op == 'is' and x.args[1] == 'None' and x.args[0].op in ('chk_mul', 'chk_div') for x, t in l) or p.facts.eq(den, C(0)),
                  'a fee is refused without an overflow or a zero denominator', 'fee-refused@' + name)


@prop('D01')
def d01(ck):
    ck.rule('swap-fees', 'the curve prices the amount minus trading and owner fee; the user pays the priced amount plus both fees; the new '
            'balances are the old ones plus what is paid and minus what is given')
    P = ck.prog()
    r = ck.root('SwapCurve::swap', opaque=['Fees::trading_fee', 'Fees::owner_trading_fee'])
    ck.need(len(r.ok), 'success paths of the swap computation')
    slf, amt, sb, db, d, fees = r.args
    tf = fld(T('call', 'Fees::trading_fee', fees, amt), 0, 'Some')
    of = fld(T('call', 'Fees::owner_trading_fee', fees, amt), 0, 'Some')
    cl = fld(slf, P.fidx('SwapCurve', 'calculator'))
    for p in r.ok:
        F, N = p.facts, Norm(p.facts)
        v = payload(p)
        less = binop('sub', amt, binop('add', tf, of))
        calls_ = [k for k in F.var if k.op == 'call' and k.args[0] == CALC + 'swap_without_fees' and F.variant(k) == 'Some']
        ck.ob('swap-fees:priced once', 'swap', len(calls_) == 1, 'the curve is consulted %d times' % len(calls_), 'swap-priced')
        for k in calls_:
            a = k.args[1:]
            ck.ob('swap-fees:curve', 'swap', a[0] is cl and F.eq(a[4], d), 'priced by another curve or direction', 'swap-curve')
            ck.ob('swap-fees:amount priced is net of both fees', 'swap', N.eq(a[1], less), lambda: 'prices ' + pp(N.term(a[1])), 'swap-net')
            ck.ob('swap-fees:balances priced', 'swap', N.eq(a[2], sb) and N.eq(a[3], db), lambda: pp(k), 'swap-balances')
            rs, rd = (fld(fld(k, 0, 'Some'), P.fidx('SwapWithoutFeesResult', f)) for f in ('source_amount_swapped', 'destination_amount_swapped'))
            g = lambda f: fld(v, P.fidx('SwapResult', f))
            tot = binop('add', rs, binop('add', tf, of))
            for f, want in [('source_amount_swapped', tot), ('destination_amount_swapped', rd), ('trade_fee', tf), ('owner_fee', of),
                            ('new_swap_source_amount', binop('add', sb, tot)), ('new_swap_destination_amount', binop('sub', db, rd))]:
                ck.ob('swap-fees:' + f, 'swap', N.eq(g(f), want), lambda: '%s is %s, specified %s' % (f, pp(N.term(g(f))), pp(N.term(want))),
                      'swap-result:' + f)
            ck.ob('swap-fees:payout within the vault', 'swap', N.ge(db, rd), 'payout not limited by the vault balance', 'swap-vault-limit')


@prop('D05')
def d05(ck):
    ck.rule('fee-fractions', 'initialize succeeds only if each fee fraction is 0/0 or has numerator < denominator')
    n = 0
    P = ck.prog()
    for name, base in (('__global::initialize_constant_price', None), ('Processor::process_initialize', 'fees')):
        r = ck.root(name)
        for p in r.ok:
            F = p.facts
            if base:
                g = lambda i: fld(r.arg(1), P.fidx('Fees', FEEF[i]))
            else:
                g = lambda i: fld(T('ixarg', 'InitializeConstantPrice'), i)
            for i in range(0, 8, 2):
                n += 1
                ok = F.decide(mk_lt(g(i), g(i + 1))) is True or F.eq(g(i), C(0)) and (F.eq(g(i + 1), C(0)) or F.ne(g(i + 1), C(0)))
                ck.ob('fee-fractions', '%s fraction %d' % (name, i // 2), ok, lambda: 'numerator %s accepted against denominator %s' % (pp(g(i)), pp(g(i + 1))),
                      'fraction:%d@%s' % (i // 2, name))
    ck.need(n, 'validated fee fractions')


from .instr import FEEF   # noqa


@prop('D08')
def d08(ck):
    ck.rule('one-sided-fee', 'one-sided deposits are priced on the amount minus the trading fee on max(1, amount/2); one-sided withdrawals '
            'are priced on no less than the amount withdrawn')
    P = ck.prog()
    for m in ('deposit_single_token_type', 'withdraw_single_token_type_exact_out'):
        r = ck.root('SwapCurve::' + m, opaque=['Fees::trading_fee', 'Fees::owner_trading_fee'])
        ck.need(len(r.ok), 'success paths of ' + m)
        slf, amt, a, b, sup, d, fees = r.args
        cl = fld(slf, P.fidx('SwapCurve', 'calculator'))
        half = binop('max', C(1), binop('div', amt, C(2)))
        fee = fld(T('call', 'Fees::trading_fee', fees, half), 0, 'Some')
        for p in r.ok:
            F, N = p.facts, Norm(p.facts)
            v = payload(p)
            if F.eq(amt, C(0)):
                ck.ob('one-sided-fee:zero', m, N.eq(v, C(0)), 'a zero amount is worth ' + pp(v), 'one-sided-zero@' + m)
                continue
            ks = [k for k in walk(v) if k.op == 'call' and k.args[0].startswith(CALC)]
            ok = len(ks) == 1 and ks[0].args[0] == CALC + m and v is fld(ks[0], 0, 'Some')
            ck.ob('one-sided-fee:priced by the curve', m, ok, lambda: 'value ' + pp(v), 'one-sided-priced@' + m)
            if not ok:
                continue
            k = ks[0].args[1:]
            ck.ob('one-sided-fee:inputs', m, k[0] is cl and N.eq(k[2], a) and N.eq(k[3], b) and N.eq(k[4], sup) and F.eq(k[5], d), lambda: pp(ks[0]),
                  'one-sided-inputs@' + m)
            if m.startswith('deposit'):
                ck.ob('one-sided-fee:amount', m, N.eq(k[1], binop('sub', amt, fee)), lambda: 'prices %s' % pp(N.term(k[1])), 'one-sided-amount@' + m)
            else:
                disc = N.eq(k[1], binop('sub', amt, fee))
                ck.ob('one-sided-fee:amount', m, N.ge(k[1], amt), lambda: 'prices %s for a withdrawal of %s' % (pp(N.term(k[1])), pp(amt)),
                      'one-sided-withdraw-discount' if disc else 'one-sided-amount@' + m)


# ------------------------------------------------------------------------------------------------ curves

def res(P, v, a='source_amount_swapped', b='destination_amount_swapped', s='SwapWithoutFeesResult'):
    return fld(v, P.fidx(s, a)), fld(v, P.fidx(s, b))


def nonzero_or_none(ck, rule, w, p, terms):
    N = Norm(p.facts)
    for n, t in terms:
        ck.ob(rule, w + ' ' + n, N.gt0(t), lambda: '%s can be zero: %s' % (n, pp(t)), '%s:%s@%s' % (rule, n, w))


def cp_swap(ck, rule, w, p, x, s, d, src, dst):
    """constant product: pays at most x, gets at most d*x/(s+x)"""
    R = Real(p.facts)
    S = Spec(R)
    value(ck, rule + ' paid', w, p, R, src, S.v(x), ('=', 'dn'), 1)
    value(ck, rule + ' received', w, p, R, dst, S.div(S.mul(d, x), S.add(s, x)), ('=', 'dn'), 1)


def cp_pool_tokens(ck, rule, curve, boff=None):
    P = ck.prog()
    r = calc(ck, curve, 'pool_tokens_to_trading_tokens')
    ck.need(len(r.ok), 'success paths of %s pool token conversion' % curve)
    slf, amt, sup, a, b, rnd = r.args
    bb = binop('add', b, boff(slf)) if boff else b
    for p in r.ok:
        R = Real(p.facts)
        S = Spec(R)
        d = p.facts.variant(rnd)
        ck.ob(rule + ':case', curve, d in ('Floor', 'Ceiling'), 'rounding request not distinguished', '%s:case@%s' % (rule, curve))
        ta, tb = res(P, payload(p), 'token_a_amount', 'token_b_amount', 'TradingTokenResult')
        for n, t, bal in (('A', ta, a), ('B', tb, bb)):
            value(ck, rule, '%s %s %s' % (curve, d, n), p, R, t, S.div(S.mul(amt, bal), sup), ('=', 'up') if d == 'Ceiling' else ('=', 'dn'), 1, zero_ok=d == 'Ceiling')


def cp_single(ck, rule, curve, boff=None):
    for m in ('deposit_single_token_type', 'withdraw_single_token_type_exact_out'):
        r = calc(ck, curve, m)
        ck.need(len(r.ok), 'success paths of %s %s' % (curve, m))
        slf, x, a, b, sup, d = r.args
        bb = binop('add', b, boff(slf)) if boff else b
        for p in r.ok:
            R = Real(p.facts)
            S = Spec(R)
            dv = p.facts.variant(d)
            ck.ob(rule + ':case', curve + ' ' + m, dv in ('AtoB', 'BtoA'), 'direction not distinguished', '%s:case@%s.%s' % (rule, curve, m))
            bal = a if dv == 'AtoB' else bb
            if m.startswith('deposit'):
                want = S.mul(sup, S.sub(S.sqrt(S.add(1, S.div(x, bal))), 1))
                dd = ('=', 'dn')
            else:
                want = S.mul(sup, S.sub(1, S.sqrt(S.sub(1, S.div(x, bal)))))
                dd = ('=', 'up')
            value(ck, rule, '%s %s %s' % (curve, m, dv), p, R, payload(p), want, dd, 1)


@prop('F04')
def f04(ck):
    ck.rule('cp-swap', 'a constant-product swap charges at most the offered amount x and pays at most dest * x / (source + x), rounded down once; '
            'paid and received are never zero on success')
    ck.rule('cp-shares', 'pool tokens are exchanged for the proportional share of each balance: rounded up (or to nothing) when depositing, down when withdrawing')
    ck.rule('cp-one-sided', 'one-sided deposits mint floor(supply * (sqrt(1 + x / balance) - 1)), one-sided withdrawals burn ceil(supply * (1 - sqrt(1 - x / '
            'balance))) of the side traded, up to the resolution of the fixed-point type')
    P = ck.prog()
    c = 'ConstantProductCurve'
    r = calc(ck, c, 'swap_without_fees')
    ck.need(len(r.ok), 'success paths of the constant product swap')
    for p in r.ok:
        src, dst = res(P, payload(p))
        cp_swap(ck, 'cp-swap', c, p, r.arg(1), r.arg(2), r.arg(3), src, dst)
        nonzero_or_none(ck, 'cp-swap nonzero', c, p, [('received', dst)])
    cp_pool_tokens(ck, 'cp-shares', c)
    cp_single(ck, 'cp-one-sided', c)


@prop('F06')
def f06(ck):
    ck.rule('offset', 'every quantity of the offset curve is the constant-product one with the offset added to the token B balance, and only there')
    P = ck.prog()
    c = 'OffsetCurve'
    off = lambda slf: fld(slf, P.fidx('OffsetCurve', 'token_b_offset'))
    r = calc(ck, c, 'swap_without_fees')
    ck.need(len(r.ok), 'success paths of the offset swap')
    for p in r.ok:
        slf, x, s, d, td = r.args
        v = p.facts.variant(td)
        ck.ob('offset:case', c, v in ('AtoB', 'BtoA'), 'direction not distinguished', 'offset:case')
        s2, d2 = (s, binop('add', d, off(slf))) if v == 'AtoB' else (binop('add', s, off(slf)), d)
        src, dst = res(P, payload(p))
        cp_swap(ck, 'offset swap', '%s %s' % (c, v), p, x, s2, d2, src, dst)
        nonzero_or_none(ck, 'offset swap nonzero', c, p, [('received', dst)])
    cp_pool_tokens(ck, 'offset shares', c, off)
    cp_single(ck, 'offset one-sided', c, off)


@prop('F05')
def f05(ck):
    ck.rule('price-swap', 'at a constant price p of token B in token A, exactly p units of A are exchanged per unit of B: A->B takes p * received <= '
            'offered, B->A pays p * offered; nothing is zero on success')
    ck.rule('price-shares', 'pool tokens are exchanged at their share of the pool value (A + p * B): two-sided conversions half of it in each token, '
            'rounded up (deposit) or down (withdraw); one-sided deposits rounded down, withdrawals up')
    P = ck.prog()
    c = 'ConstantPriceCurve'
    r = calc(ck, c, 'swap_without_fees')
    ck.need(len(r.ok), 'success paths of the constant price swap')
    slf, x, sb, db, td = r.args
    pr = fld(slf, P.fidx(c, 'token_b_price'))
    for p in r.ok:
        F = p.facts
        R = Real(F)
        S = Spec(R)
        v = F.variant(td)
        src, dst = res(P, payload(p))
        w = '%s %s' % (c, v)
        if v == 'AtoB':
            value(ck, 'price-swap received', w, p, R, dst, S.div(x, pr), ('=', 'dn'), 1)
            N = Norm(F, rewrite=lambda t: T('sub', t.args[0], binop('mul', t.args[1], binop('div', *t.args))) if t.op == 'rem' else None)
            dp = N.diff(src, binop('mul', pr, dst))
            ex = not dp or any(N.diff(t.args[0], binop('mul', t.args[1], binop('div', *t.args))) == dp
                               for t in list(F.uf) + [y for l, tr in F.literals() for y in walk(l)] if t.op == 'rem' and F.eq(t, C(0)))
            ck.ob('price-swap:exact price', w, ex, lambda: 'paid %s for %s' % (pp(src), pp(dst)), 'price-exact@' + w)
            ck.ob('price-swap:paid <= offered', w, Norm(F).ge(x, src) or R.of(src)[2] in ('=', 'dn') and R.same(src, S.v(x)), lambda: pp(src), 'price-paid@' + w)
        elif v == 'BtoA':
            ck.ob('price-swap:exact price', w, R.N.eq(dst, binop('mul', src, pr)) and R.N.eq(src, x), lambda: 'paid %s for %s' % (pp(src), pp(dst)), 'price-exact@' + w)
        else:
            ck.ob('price-swap:case', w, False, 'direction not distinguished', 'price-case')
        nonzero_or_none(ck, 'price-swap nonzero', w, p, [('paid', src), ('received', dst)])
    r = calc(ck, c, 'pool_tokens_to_trading_tokens')
    ck.need(len(r.ok), 'success paths of constant price conversion')
    slf, amt, sup, a, b, rnd = r.args
    pr = fld(slf, P.fidx(c, 'token_b_price'))
    for p in r.ok:
        R = Real(p.facts)
        S = Spec(R)
        d = p.facts.variant(rnd)
        ta, tb = res(P, payload(p), 'token_a_amount', 'token_b_amount', 'TradingTokenResult')
        half = S.div(S.add(a, S.mul(b, pr)), 2)
        for n, t, want in (('A', ta, S.div(S.mul(amt, half), sup)), ('B', tb, S.div(S.div(S.mul(amt, half), sup), pr))):
            w = '%s %s %s' % (c, d, n)
            ck.ob('price-shares:formula', w, R.same(t, want), lambda: R.text(t), 'price-shares:formula@' + w)
            allowed = ('=', 'up') if d == 'Ceiling' else ('=', 'dn')
            g = R.of(t)[2]
            if d == 'Ceiling' and g not in allowed:
                # the share itself is rounded up, of a pool value that was rounded down
                half_dn = any(k.op == 'div' and k.args[1] is C(2) for k in walk(t)) and outer_up(t)
                ck.ob('price-shares:rounding', w, False, lambda: '%s is rounded %s' % (R.text(t), g),
                      'price-shares-value-rounded-down@' + w if half_dn else 'price-shares:rounding@' + w)
            else:
                ck.ob('price-shares:rounding', w, g in allowed, lambda: '%s is rounded %s' % (R.text(t), g), 'price-shares:rounding@' + w)
    for m in ('deposit_single_token_type', 'withdraw_single_token_type_exact_out'):
        r = calc(ck, c, m)
        ck.need(len(r.ok), 'success paths of constant price ' + m)
        slf, x, a, b, sup, d = r.args
        pr = fld(slf, P.fidx(c, 'token_b_price'))
        for p in r.ok:
            R = Real(p.facts)
            S = Spec(R)
            dv = p.facts.variant(d)
            worth = x if dv == 'AtoB' else binop('mul', x, pr)
            want = S.div(S.mul(worth, sup), S.add(a, S.mul(b, pr)))
            value(ck, 'price one-sided', '%s %s %s' % (c, m, dv), p, R, payload(p), want, ('=', 'dn') if m.startswith('deposit') else ('=', 'up'), 1)


def outer_up(t):
    if t.op == 'ceilq':
        x = t.args[0]
        return True if x.op != 'ceilq' else outer_up(x)
    return False


# ------------------------------------------------------------------------------------------------ linear price

def linear_b(S, P, slf, x):
    """position on the curve: tokens B given out when x of A is locked: (sqrt(a0^2 + 2 m x) - a0) / m"""
    f = lambda n: fld(slf, P.fidx('LinearPriceCurve', n))
    m = S.div(f('slope_numerator'), f('slope_denominator'))
    a0 = S.div(f('initial_token_a_price_numerator'), f('initial_token_a_price_denominator'))
    return S.div(S.sub(S.sqrt(S.add(S.mul(a0, a0), S.mul(2, m, x))), a0), m)


def linear_a(S, P, slf, b):
    """A locked when b of B is given out: m/2 b^2 + a0 b"""
    f = lambda n: fld(slf, P.fidx('LinearPriceCurve', n))
    m = S.div(f('slope_numerator'), f('slope_denominator'))
    a0 = S.div(f('initial_token_a_price_numerator'), f('initial_token_a_price_denominator'))
    return S.add(S.div(S.mul(m, b, b), 2), S.mul(a0, b))


@prop('G03')
def g03(ck):
    ck.rule('linear-swap', 'A->B: pays at most b(locked + x) - b(locked), or all remaining B for A(b(locked) + remaining) - locked <= x; '
            'B->A: pays at most locked - A(b(locked) - x), or all locked A for b(locked) <= x; where A(b) = m/2 b^2 + a0 b and b is its inverse')
    ck.rule('linear-rounding', 'what the user receives is rounded down, what the user pays is rounded up (fixed-point resolution aside); square roots '
            'are requested rounded in the matching direction')
    P = ck.prog()
    c = 'LinearPriceCurve'
    r = calc(ck, c, 'swap_without_fees', DFS)
    ck.need(len(r.ok), 'success paths of the linear swap')
    slf, x, sb, db, td = r.args
    seen = set()
    for p in r.ok:
        F = p.facts
        R = Real(F)
        S = Spec(R)
        v = F.variant(td)
        src, dst = res(P, payload(p))
        if v not in ('AtoB', 'BtoA'):
            ck.ob('linear-swap:case', c, False, 'direction not distinguished', 'linear-case')
            continue
        locked = sb if v == 'AtoB' else db
        b0 = linear_b(S, P, slf, locked)
        partial = R.N.eq(dst, db)
        w = '%s %s%s' % (c, v, ' draining' if partial else '')
        seen.add((v, partial))
        nonzero_or_none(ck, 'linear-swap nonzero', w, p, [('paid', src), ('received', dst)])
        if v == 'AtoB' and not partial:
            wd = S.sub(linear_b(S, P, slf, binop('add', sb, x)), b0)
            ws = S.v(x)
        elif v == 'AtoB':
            wd = S.v(db)
            ws = S.sub(linear_a(S, P, slf, S.add(b0, db)), sb)
        elif not partial:
            wd = S.sub(db, linear_a(S, P, slf, S.sub(b0, x)))
            ws = S.v(x)
        else:
            wd = S.v(db)
            ws = b0
        gs, gd = R.of(src), R.of(dst)
        if (not gd[0] and gd[2] in ('=', 'dn') or not gs[0] and gs[2] in ('=', 'dn')):
            continue        # amounts are exactly zero here, which the nonzero test of this path excludes
        ck.ob('linear-swap:received', w, R.same(dst, wd), lambda: 'received %s' % R.text(dst), 'linear-received@' + w)
        ck.ob('linear-swap:paid', w, R.same(src, ws), lambda: 'paid %s' % R.text(src), 'linear-paid@' + w)
        ck.ob('linear-rounding:received', w, gd[2] in ('=', 'dn'), lambda: 'received is rounded %s: %s' % (gd[2], pp(dst)[:200]), 'linear-round-received@' + w)
        ck.ob('linear-rounding:paid', w, gs[2] in ('=', 'up'), lambda: 'paid is rounded %s: %s' % (gs[2], pp(src)[:200]), 'linear-round-paid@' + w)
        if v == 'BtoA' and not partial:
            # fixed-point resolution at the end of a sale is worth up to a whole price: only a whole position keeps it from the trader
            ends = [t for t in walk(dst) if t.op == 'call' and t.args[0].endswith('DFSPreciseNumber::ceiling')]
            ok = False
            for t in ends:
                g = R.of(fld(t, 0, 'Some'))
                ok = ok or g[2] in ('up', '~') and any(R.zero(R.cross(g, o)) for o in (S.sub(b0, x), S.v(b0)))
            ck.ob('linear-rounding:whole end', w, ok, lambda: 'the position a sale ends at is not rounded up to a whole token: %s' % [pp(t)[:120] for t in ends], 'linear-end@' + w)
        # never more than offered
        ok = R.N.ge(x, src)
        if not ok:
            scal = lambda t: t
            for a, b in list(F.nlt) + list(F.lts):
                hi, lo = (a, b) if (a, b) in F.nlt else (b, a)
                h, l = R.of(hi), R.of(lo)
                for k in (1, 10 ** 18):
                    if R.zero(R.cross((h[0], {m: z * k for m, z in h[1].items()}, '=', 0), S.v(x))) and \
                            R.zero(R.cross((l[0], {m: z * k for m, z in l[1].items()}, '=', 0), ws)):
                        ok = True
        ck.ob('linear-swap:paid <= offered', w, ok, lambda: 'paid %s' % pp(src)[:300], 'linear-offered@' + w)
    ck.ob('linear-swap:all cases analysed', c, len(seen) == 4, lambda: str(seen), 'linear-cases')
