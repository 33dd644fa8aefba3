"""Zero-value exchanges, production constraints, curve admission, errors, dispatch (families C04, D06, G01, G02, H, J)."""
import hashlib, itertools, re
from .common import *
from .instr import each, where, vaults, owner_withdraw_fee, withdraw_all_exp, FEEF
from .curves import CURVES, calc, payload, res, DFS
from .state import TAGS
from ..real import Real
from .curves import Spec


def method(ck, curve, m, opaque=()):
    """the curve's own method, or the one it inherits from the trait"""
    try:
        return calc(ck, curve, m, opaque)
    except Anchor:
        return ck.root('CurveCalculator::' + m, opaque=list(opaque))


# ------------------------------------------------------------------------------------------------ C04

@prop('C04')
def c04(ck):
    ck.rule('nonzero-legs', 'on each success path every priced amount that is moved or minted is established nonzero; the one exception is '
            'a two-sided withdrawal from a vault established empty')
    ck.rule('nonzero-swap', 'each curve returns a result only if the amount paid out is established nonzero (and, for curves that may charge less than was '
            'offered by formula, the amount charged too)')

    def pos(I, p, what, amt):
        N = Norm(p.facts)
        ck.ob('nonzero-legs', where(I, p) + ' ' + what, N.gt0(amt), lambda: '%s can be zero: %s' % (what, I.show(amt)[:300]),
              'zero:%s@%s' % (what, I.kind))
    for I, p in each(ck, ['deposit_all']):
        for m in moves(I, p):
            if m['op'] == 'transfer':
                pos(I, p, 'token paid in', m['amt'])
    for I, p in each(ck, ['deposit_single']):
        for m in moves(I, p):
            if m['op'] == 'mint_to':
                pos(I, p, 'pool tokens', m['amt'])
    for I, p in each(ck, ['withdraw_single']):
        tot = C(0)
        for m in moves(I, p):
            if m['op'] == 'burn' or m['op'] == 'transfer' and p.facts.eq(m['a'], I.key('user_pool')):
                tot = binop('add', tot, m['amt'])
        N = Norm(p.facts)
        charged = [x for m in moves(I, p) if m['op'] == 'burn' or m['op'] == 'transfer' and p.facts.eq(m['a'], I.key('user_pool')) for x in [m['amt']]]
        ck.ob('nonzero-legs', where(I, p) + ' pool tokens', N.gt0(tot) or any(N.gt0(x) for x in charged), 'the pool tokens charged can be zero', 'zero:pool tokens@' + I.kind)
    for I, p in each(ck, ['withdraw_all']):
        F = p.facts
        for s in 'ab':
            ms = [m for m in moves(I, p) if m['op'] == 'transfer' and F.eq(m['a'], I.key('vault_' + s))]
            if ms:
                for m in ms:
                    pos(I, p, 'token %s paid out' % s.upper(), m['amt'])
            else:
                ck.ob('nonzero-legs', where(I, p) + ' token %s not paid' % s.upper(), F.eq(I.tok('vault_' + s, 'amount'), C(0)),
                      'token %s is not paid out although its vault may hold tokens' % s.upper(), 'zero:token %s@%s' % (s, I.kind))
    for I, p in each(ck, ['swap', 'swap_host']):
        for m in moves(I, p):
            if m['op'] == 'mint_to' and not F_host(I, p, m):
                pos(I, p, 'owner fee', m['amt'])
    P = ck.prog()
    for c in CURVES:
        r = calc(ck, c, 'swap_without_fees', DFS if c == 'LinearPriceCurve' else () if c != 'StableCurve' else ['compute_d', 'compute_new_destination_amount'])
        ck.need(len(r.ok), 'success paths of %s swap' % c)
        for p in r.ok:
            src, dst = res(P, payload(p))
            N = Norm(p.facts)
            d = p.facts.variant(r.arg(4)) or ''
            if c != 'StableCurve':
                ck.ob('nonzero-swap', '%s %s received' % (c, d), N.gt0(dst), lambda: pp(dst)[:300], 'zero-received@%s' % c)
            if c in ('ConstantPriceCurve', 'LinearPriceCurve'):
                ck.ob('nonzero-swap', '%s %s paid' % (c, d), N.gt0(src), lambda: pp(src)[:300], 'zero-paid@%s' % c)


def F_host(I, p, m):
    """the mint of the host's share: rounding may take all of the owner fee (it is still priced) - only the total is required nonzero"""
    return len([x for x in moves(I, p) if x['op'] == 'mint_to']) > 1


# ------------------------------------------------------------------------------------------------ D06

# the published production fees: (numerator, denominator) of trading, owner trading, owner withdrawal and host fee
PRODFEES = [0, 10000, 5, 10000, 0, 0, 20, 100]


@prop('D06')
def d06(ck):
    ck.rule('constraints-enforced', 'with constraints configured, pool creation succeeds only if the fee account belongs to the configured owner, the curve type is '
            'listed, each fee numerator is at least the configured one, each denominator and the host share are exactly the configured ones')
    ck.rule('constraints-configured', 'the production configuration does configure constraints, and both creation instructions pass them on')
    ck.rule('constraints-off', 'without constraints configured nothing is compared against them')
    P = ck.prog()
    types = sorted(TAGS)

    def fees_ok(w, p, got, want, key):
        F = p.facts
        for i, f in enumerate(FEEF):
            a, b = got(i), want(i)
            if f.endswith('_numerator') and not f.startswith('host'):
                ok = Norm(F).ge(a, b)
            else:
                ok = F.eq(a, b)
            ck.ob('constraints-enforced:' + f, w, ok, lambda: '%s accepted against the configured %s' % (pp(a), pp(b)), '%s:%s' % (key, f))

    def pi(x):
        return P.fidx('SwapConstraints', x)

    def cons(ts, fees):
        v = {pi('owner_key'): T('param', 'configured_owner'), pi('valid_curve_types'): agg('array', None, *[agg('CurveType', t) for t in ts]), pi('fees'): fees}
        return agg('SwapConstraints', None, *[v[i] for i in range(len(v))])
    fees = T('param', 'configured_fees')
    # the two predicates, over every set of listed curve types
    for n in range(0, 3):
        for ts in itertools.combinations(types, n):
            for t in types:
                cur = agg('SwapCurve', None, agg('CurveType', t), T('param', 'calculator'))
                r = ck.root('SwapConstraints::validate_curve', args=[cons(ts, fees), cur], tag='%s in %s' % (t, list(ts)))
                w = '%s against %s' % (t, list(ts))
                ck.ob('constraints-enforced:curve listed', w, bool(r.paths) and all(succ(p) == (t in ts) and p.kind == 'ret' for p in r.paths),
                      'a curve type is %s' % ('refused although listed' if t in ts else 'accepted although not listed'), 'curve-listed')
    r = ck.root('SwapConstraints::validate_fees')
    ck.need(len(r.ok), 'success paths of validate_fees')
    for p in r.ok:
        fees_ok('validate_fees', p, lambda i: fld(r.arg(1), i), lambda i: fld(fld(r.arg(0), pi('fees')), i), 'fees')
    # pool creation under a symbolic configuration
    r0 = ck.root('Processor::process_initialize')
    names = ['program_id', 'fees', 'swap_curve', 'accounts', 'swap_constraints']
    ck.ob('constraints-enforced:signature', 'process_initialize', len(r0.args) == 5, 'the creation function takes other parameters', 'd06-signature')
    if len(r0.args) != 5:
        return
    listed = ('ConstantPrice', 'ConstantProduct')
    for t in types:
        a = list(r0.args)
        a[2] = agg('SwapCurve', None, agg('CurveType', t), T('param', 'calculator'))
        a[4] = agg('Option', 'Some', cons(listed, fees))
        r = ck.root('Processor::process_initialize', args=a, tag='constrained:' + t)
        w = 'creation of %s with %s listed' % (t, list(listed))
        if t not in listed:
            ck.ob('constraints-enforced:curve', w, not r.ok, 'a pool with an unlisted curve type can be created', 'd06-curve')
            continue
        ck.need(len(r.ok), w)
        for p in r.ok:
            F = p.facts
            own = fld(T('unpacked', 'Account', T('data', idx(a[3], 5), 0), 'unpack'), SPL['owner'])
            ck.ob('constraints-enforced:fee owner', w, F.eq(own, T('parsed', T('param', 'configured_owner'))), lambda: 'no equality of the fee account\'s owner with the '
                  'configured owner', 'd06-owner')
            fees_ok(w, p, lambda i: fld(a[1], i), lambda i: fld(fees, i), 'd06')
    # production build
    sc = ck.root('SWAP_CONSTRAINTS', variant='production')
    vs = [p.val for p in sc.paths if p.kind == 'ret']
    some = len(vs) == 1 and vs[0].op == 'agg' and vs[0].args[1] == 'Some'
    ck.ob('constraints-configured', 'production configuration', some, 'the production build has no constraints', 'd06-none')
    if some:
        c = vs[0].args[2]
        okey, lst, fe = (fld(c, pi(x)) for x in ('owner_key', 'valid_curve_types', 'fees'))
        lt = [x.args[1] for x in lst.args[2:]] if lst.op == 'agg' else None
        ck.ob('constraints-configured:curves', 'production configuration', lt is not None and set(lt) == {'ConstantPrice', 'ConstantProduct'},
              lambda: 'listed curve types %s' % pp(lst), 'd06-prod-curves')
        spec = PRODFEES
        for i, f in enumerate(FEEF):
            ck.ob('constraints-configured:' + f, 'production configuration', fld(fe, i) is C(spec[i]), lambda: '%s is %s, published %d' % (f, pp(fld(fe, i)), spec[i]), 'd06-prod:' + f)
        I = ck.instr('init_price', variant='production')
        ck.need(len(I.ok), 'production pool creation')
        for p in I.ok:
            F = p.facts
            ck.ob('constraints-configured:fee owner', 'initialize_constant_price', F.eq(I.tok('pool_fee', 'owner'), T('parsed', okey)), 'the fee account owner is not the configured one', 'd06-prod-owner')
            fees_ok('initialize_constant_price', p, lambda i: fld(T('ixarg', 'InitializeConstantPrice'), i), lambda i: fld(fe, i), 'd06-prod-init')
        L = ck.instr('init_linear', variant='production')
        ck.ob('constraints-configured:unlisted curve', 'initialize_linear_price', not L.ok, 'a linear price pool can be created although its curve type is not listed', 'd06-prod-linear')
    sd = ck.root('SWAP_CONSTRAINTS')
    vs = [p.val for p in sd.paths if p.kind == 'ret']
    ck.ob('constraints-off', 'default configuration', len(vs) == 1 and vs[0].op == 'agg' and vs[0].args[1] == 'None', 'the default build has constraints', 'd06-default')


# ------------------------------------------------------------------------------------------------ G01 G02

@prop('G01')
def g01(ck):
    ck.rule('deposits-consult-curve', 'each deposit success path has established that the pool\'s curve allows deposits')
    ck.rule('deposits-closed', 'the offset and the linear price curve do not allow deposits; every other curve does')
    ck.rule('linear-no-pool-tokens', 'the linear price curve gives no price for pool tokens in any conversion')
    P = ck.prog()
    for I, p in each(ck, ['deposit_all', 'deposit_single']):
        F = p.facts
        cl = fld(I.st('swap_curve'), P.fidx('SwapCurve', 'calculator'))
        ad = [t for t in (T('call', CALC + 'allows_deposits', cl),)]
        ok = any(F.find(t) is TRUE or F.decide(t) is True for t in ad) or any(
            tr and t.op == 'call' and t.args[0] == CALC + 'allows_deposits' and t.args[1] is cl for t, tr in F.literals())
        ck.ob('deposits-consult-curve', where(I, p), ok, 'a deposit succeeds without the curve allowing deposits', 'deposit-unasked@' + I.kind)
    for c in CURVES:
        r = method(ck, c, 'allows_deposits')
        want = FALSE if c in ('OffsetCurve', 'LinearPriceCurve') else TRUE
        ck.ob('deposits-closed', c, bool(r.paths) and all(p.kind == 'ret' and p.val is want for p in r.paths), lambda: 'allows_deposits returns %s' % [pp(p.val) for p in r.paths], 'allows@' + c)
    for m in ('pool_tokens_to_trading_tokens', 'deposit_single_token_type', 'withdraw_single_token_type_exact_out'):
        r = calc(ck, 'LinearPriceCurve', m)
        ck.ob('linear-no-pool-tokens', m, bool(r.paths) and not r.ok, lambda: 'prices pool tokens: %s' % [pp(p.val) for p in r.ok][:2], 'linear-prices@' + m)


@prop('G02')
def g02(ck):
    ck.rule('parameters', 'a curve is accepted only if its price / offset / slope and denominators are nonzero and the slope is representable; refused only if not')
    ck.rule('supply', 'a pool is accepted only with the starting balances its curve needs; refused only without them')
    ck.rule('asked', 'pool creation succeeds only if both tests of the pool\'s curve succeeded, for the balances of the two vaults')
    P = ck.prog()

    def zeros(c, r, terms, what, extra_bad=None, extra_ok=None):
        for p in r.ok:
            F, N = p.facts, Norm(p.facts)
            for n, t in terms:
                ck.ob(what, '%s %s nonzero' % (c, n), N.gt0(t), lambda: '%s may be zero' % n, '%s:%s@%s' % (what, n, c))
            if extra_ok:
                ck.ob(what, '%s %s' % (c, extra_ok[0]), extra_ok[1](p), extra_ok[0] + ' not established', '%s:%s@%s' % (what, extra_ok[0], c))
        for p in r.bad:
            F = p.facts
            ok = any(F.eq(t, C(0)) for n, t in terms) or bool(extra_bad and extra_bad(p))
            ck.ob(what + ':refused only when invalid', c, ok, lambda: 'refused under ' + '; '.join(('' if t else 'not ') + pp(l)[:100] for l, t in F.literals()), '%s-refused@%s' % (what, c))
        ck.ob(what + ':no abort', c, not r.aborts, 'can abort', '%s-abort@%s' % (what, c))
    for c in CURVES:
        r = method(ck, c, 'validate')
        ck.need(len(r.ok), 'accepting paths of %s validate' % c)
        f = lambda n: fld(r.arg(0), P.fidx(c, n))
        if c == 'ConstantPriceCurve':
            zeros(c, r, [('price', f('token_b_price'))], 'parameters')
        elif c == 'OffsetCurve':
            zeros(c, r, [('offset', f('token_b_offset'))], 'parameters')
        elif c == 'LinearPriceCurve':
            r2 = method(ck, c, 'validate', DFS + ['DFSPreciseNumber::greater_than_or_equal'][:0])
            sn, sd, an, ad = (f(n) for n in ('slope_numerator', 'slope_denominator', 'initial_token_a_price_numerator', 'initial_token_a_price_denominator'))

            def resolution(p):
                R = Real(p.facts)
                S = Spec(R)
                above = list(p.facts.nlt) + [(b, a) for a, b in p.facts.lts] + \
                    [x for l, t in p.facts.literals() if t and l.op == 'eq' for x in (l.args, l.args[::-1])]
                cands = above + [x for a, b in p.facts.neq for x in ((a, b), (b, a))]
                for hi, lo in cands:
                    if R.same(hi, S.mul(sn, 10 ** 18)) and lo is sd and (hi, lo) in above:
                        return True         # the same comparison, multiplied out
                    h, l = R.of(hi), R.of(lo)
                    if not (h[0] and not (set(m for m in l[0] if m) or set(m for m in l[1] if m))):
                        continue
                    for k in (1, 10 ** 18):
                        want = S.div(S.mul(sn, k), sd)
                        if R.same(hi, want):
                            # l >= k * 1e-18, or l == 0 with hi an integer of resolution 1e-18
                            lv = (l[0].get((), 0), l[1].get((), 1))
                            if (hi, lo) in above and lv[0] * 10 ** 18 >= k * lv[1]:
                                return True
                            if (hi, lo) not in p.facts.nlt and lv[0] == 0 and k == 10 ** 18:
                                return True
                            if (hi, lo) not in p.facts.nlt and lv[0] == 0 and k == 1:
                                return True
                return False
            def below(p):
                """the slope is established to be less than the resolution, or 0 at the resolution"""
                R = Real(p.facts)
                S = Spec(R)
                for k in (1, 10 ** 18):
                    want = S.div(S.mul(sn, k), sd)
                    for lo, hi in p.facts.lts:
                        h = R.of(hi)
                        if R.same(lo, S.mul(sn, 10 ** 18)) and hi is sd:
                            return True
                        if R.same(lo, want) and not any(m for m in h[0]) and not any(m for m in h[1]):
                            if h[0].get((), 0) * 10 ** 18 <= k * h[1].get((), 1):
                                return True
                    for x, t in p.facts.literals():
                        if t and x.op == 'eq' and C(0) in x.args and any(R.same(y, want) for y in x.args if y is not C(0)):
                            return True
                return False
            zeros(c, r2, [('slope numerator', sn), ('slope denominator', sd), ('price denominator', ad)], 'parameters',
                  extra_bad=lambda p: any(t and x.op == 'is' and x.args[1] == 'None' for x, t in p.facts.literals()) or below(p),
                  extra_ok=('slope at or above the resolution', resolution))
        else:
            ck.ob('parameters', c, not r.bad and not r.aborts, 'refuses a curve without parameters to refuse', 'parameters@' + c)
        r = method(ck, c, 'validate_supply')
        ck.need(len(r.ok), 'accepting paths of %s validate_supply' % c)
        a, b = r.arg(1), r.arg(2)
        if c in ('ConstantPriceCurve', 'OffsetCurve'):
            zeros(c, r, [('token A balance', a)], 'supply')
        elif c == 'LinearPriceCurve':
            zeros(c, r, [('token B balance', b)], 'supply', extra_bad=lambda p: Norm(p.facts).gt0(a), extra_ok=('token A balance zero', lambda p: p.facts.eq(a, C(0))))
        else:
            zeros(c, r, [('token A balance', a), ('token B balance', b)], 'supply')
    r = ck.root('Processor::process_initialize')
    ck.need(len(r.ok), 'success paths of pool creation')
    for p in r.ok:
        F = p.facts
        ok = {}
        for k in F.var:
            if k.op == 'call' and F.variant(k) == 'Ok':
                if k.args[0] == CALC + 'validate':
                    ok['validate'] = k.args[1] is fld(r.arg(2), P.fidx('SwapCurve', 'calculator'))
                if k.args[0] == CALC + 'validate_supply':
                    tok = lambda i: fld(T('unpacked', 'Account', T('data', idx(r.arg(3), i), 0), 'unpack'), SPL['amount'])
                    ok['validate_supply'] = k.args[1] is fld(r.arg(2), P.fidx('SwapCurve', 'calculator')) and F.eq(k.args[2], tok(2)) and F.eq(k.args[3], tok(3))
        for n in ('validate', 'validate_supply'):
            ck.ob('asked', 'process_initialize ' + n, ok.get(n), 'pool creation succeeds without a passed %s' % n, 'asked:' + n)


# ------------------------------------------------------------------------------------------------ H01 J01 J02

ERRORS = ['AlreadyInUse', 'InvalidProgramAddress', 'InvalidOwner', 'InvalidOutputOwner', 'ExpectedMint', 'ExpectedAccount', 'EmptySupply', 'InvalidSupply',
          'InvalidDelegate', 'InvalidInput', 'IncorrectSwapAccount', 'IncorrectPoolMint', 'InvalidOutput', 'CalculationFailure', 'InvalidInstruction',
          'RepeatedMint', 'ExceededSlippage', 'InvalidCloseAuthority', 'InvalidFreezeAuthority', 'IncorrectFeeAccount', 'ZeroTradingTokens',
          'FeeCalculationFailure', 'ConversionFailure', 'InvalidFee', 'IncorrectTokenProgramId', 'UnsupportedCurveType', 'InvalidCurve', 'UnsupportedCurveOperation']


@prop('H01')
def h01(ck):
    ck.rule('error-codes', 'each program error keeps its published number, and is reported to callers as the custom code of that number')
    P = ck.prog()
    vs = dict(P.enums.get('SwapError', []))
    for i, n in enumerate(ERRORS):
        ck.ob('error-codes:number', n, vs.get(n) == i, 'error %s has code %s, published %d' % (n, vs.get(n), i), 'code:' + n)
        e = agg('SwapError', n)
        for fn in ('<ProgramError as From>::from',):
            if ck.has(fn):
                r = ck.root(fn, args=[e], tag=n)
                ck.ob('error-codes:reported', n, bool(r.paths) and all(p.kind == 'ret' and pp(p.val).endswith('Custom(%d)' % i) for p in r.paths),
                      lambda: 'reported as %s' % [pp(p.val) for p in r.paths], 'reported:' + n)
                break
        else:
            ck.ob('error-codes:reported', n, False, 'no conversion of program errors', 'no-conversion')
    extra = [n for n in vs if n not in ERRORS and vs[n] < len(ERRORS)]
    ck.ob('error-codes:unambiguous', 'SwapError', not extra and len(set(vs.values())) == len(vs), lambda: 'codes reused by %s' % extra, 'code-reuse')


@prop('J01')
def j01(ck):
    ck.rule('dispatch', 'instruction data starting with the published 8 byte discriminator of an instruction runs that instruction, with the program id and accounts '
            'unchanged and the rest of the data as arguments; any other data runs none of them')
    opq = OPAQUE + sorted(ENTRY.values())
    r = ck.root('dispatch', opaque=opq)
    pid, accounts, data = r.args
    n = {}
    for p in r.paths:
        F = p.facts
        calls_ = [t for t in list(F.var) + ([p.val] if p.val is not None else []) for x in walk(t) for t in [x] if x.op == 'call' and x.args[0] in ENTRY.values()]
        calls_ += [t for e in p.effects for z in e if isinstance(z, T) for t in walk(z) if t.op == 'call' and t.args[0] in ENTRY.values()]
        got = []
        for i in range(8):
            u = F.find(idx(data, i))
            got.append(u.args[0] if u.op == 'c' else None)
        for t in set(calls_):
            name = t.args[0].split('::')[-1]
            want = list(hashlib.sha256(('global:' + name).encode()).digest()[:8])
            n[name] = n.get(name, 0) + 1
            ck.ob('dispatch:discriminator', name, got == want, lambda: 'runs for data starting %s' % got, 'discriminator:' + name)
            ck.ob('dispatch:arguments', name, t.args[1] is pid and t.args[2] is accounts and F.eq(t.args[3], view(data, 8, None)), lambda: pp(t)[:200], 'dispatch-args:' + name)
            ck.ob('dispatch:result', name, p.kind == 'ret' and (p.val is t or any(x is t for x in walk(p.val))) or not succ(p), 'the result of the instruction is not the result of the call', 'dispatch-result:' + name)
        if succ(p) and not calls_:
            # the interface description instructions of the framework, which live under their own 8 byte tag
            tag = [a for a in F.uf if a is view(data, 0, 8)]
            ck.ob('dispatch:nothing else succeeds', 'dispatch', any(t.op == 'eq' and any(x is view(data, 0, 8) for x in t.args) and tr for t, tr in F.literals()),
                  'data without a known discriminator succeeds', 'dispatch-other')
    for v in sorted(set(ENTRY.values())):
        ck.need(n.get(v.split('::')[-1], 0), 'dispatch to ' + v)


# what each instruction may move: operation, from (the mint for mint_to), to (the mint for burn), by
PUBLISHED = {
    'swap': [('transfer', 'user_source', 'vault_in', 'user_authority'), ('transfer', 'vault_out', 'user_dest', 'authority'),
             ('mint_to', 'pool_mint', 'pool_fee', 'authority'), ('mint_to', 'pool_mint', 'host_fee', 'authority')],
    'deposit_all': [('transfer', 'user_a', 'vault_a', 'user_authority'), ('transfer', 'user_b', 'vault_b', 'user_authority'), ('mint_to', 'pool_mint', 'user_pool', 'authority')],
    'deposit_single': [('transfer', 'user_source', 'vault_a', 'user_authority'), ('transfer', 'user_source', 'vault_b', 'user_authority'), ('mint_to', 'pool_mint', 'user_pool', 'authority')],
    'withdraw_all': [('transfer', 'user_pool', 'pool_fee', 'user_authority'), ('burn', 'user_pool', 'pool_mint', 'user_authority'),
                     ('transfer', 'vault_a', 'user_a', 'authority'), ('transfer', 'vault_b', 'user_b', 'authority')],
    'withdraw_single': [('transfer', 'user_pool', 'pool_fee', 'user_authority'), ('burn', 'user_pool', 'pool_mint', 'user_authority'),
                        ('transfer', 'vault_a', 'user_dest', 'authority'), ('transfer', 'vault_b', 'user_dest', 'authority')],
}
PUBLISHED['swap_host'] = PUBLISHED['swap']
PUBLISHED['init_any'] = PUBLISHED['init_price'] = PUBLISHED['init_linear'] = [('mint_to', 'pool_mint', 'pool_dest', 'authority')]


@prop('J02')
def j02(ck):
    ck.rule('role', 'every token movement of an instruction has the account published for that position at each end and as its authority')
    for k in list(PUBLISHED):
        I = ck.instr(k)
        ck.need(len(I.ok), 'success paths of ' + k)
        n = 0
        for p in I.ok:
            F = p.facts
            for m in moves(I, p):
                n += 1
                ok = m['op'] != '?' and any(m['op'] == op and F.eq(m['a'], I.key(a)) and F.eq(m['b'], I.key(b)) and F.eq(m['auth'], I.key(c))
                         for op, a, b, c in PUBLISHED[k] if I.has(a) and I.has(b))
                ck.ob('role', pathname(I, p), ok, lambda: '%s of %s to %s by %s is no published movement of the instruction' %
                      (m['op'], *(I.show(m[z]) if z in m else '?' for z in ('a', 'b', 'auth'))), 'role@%s:%s' % (k, m['op']))
        ck.need(n, 'token movements of ' + k)


# ------------------------------------------------------------------------------------------------ D07

PRICING = {'swap_without_fees': 1, 'pool_tokens_to_trading_tokens': 1, 'deposit_single_token_type': 1, 'withdraw_single_token_type_exact_out': 1}


def pricing(t):
    """(method, term) of a call of the pool's curve that prices an amount"""
    if t.op != 'call' or ' as CurveCalculator>::' not in str(t.args[0]):
        return None
    m = t.args[0].rsplit('::', 1)[1]
    return m if m in PRICING else None


@prop('D07')
def d07(ck):
    ck.rule('no-rate-no-fee', 'with every fee numerator recorded in the pool assumed zero, on each success path of each trade every amount put to the curve is the amount of the '
            'instruction (or the supply of a refilled pool), every amount moved is such an amount or what the curve answers, and nothing goes to a fee account')
    ck.rule('linear-has-no-rates', 'each success path of the initialization of a linear price pool records zero for every fee numerator')
    for k in ['swap', 'swap_host', 'deposit_all', 'deposit_single', 'withdraw_all', 'withdraw_single']:
        I = ck.instr(k)
        P, fees = I.prog, I.st('fees')
        F0 = Facts()
        for f in FEEF[0::2]:
            F0.assume(mk_eq(fld(fees, P.fidx('Fees', f)), C(0)), True)
        r = ck.root(ENTRY[k] if k in ENTRY else 'Processor::process_swap', opaque=[], facts=F0, tag='+norates')
        ck.need(len(r.ok), 'success paths of %s without fee rates' % k)
        nmv = 0
        for p in r.ok:
            F, N, w = p.facts, Norm(p.facts), pathname(I, p)
            own = [I.a('amount_in')] if k.startswith('swap') else [I.a(0)]
            allow = list(own)
            mv = moves(I, p)
            terms = [t for m in mv for t in m['ix'].args if isinstance(t, T)] + [t for t, _ in F.literals()]
            seen = {}
            for t in terms:
                for x in walk(t):
                    if pricing(x):
                        seen[x] = pricing(x)
                    elif x.op == 'call' and str(x.args[0]).endswith('CurveCalculator>::new_pool_supply'):
                        allow += [x]
            fresh = list(allow)
            for x, m in seen.items():
                amt = x.args[1 + PRICING[m]]
                ck.ob('no-rate-no-fee:priced', w, any(N.eq(amt, a) for a in fresh), lambda: '%s is asked about %s' % (m, I.show(amt)[:300]), 'unpriced:%s@%s' % (m, k))
                o = fld(x, 0, 'Some')
                allow += [o, fld(o, 0), fld(o, 1)]
            for m in mv:
                nmv += 1
                if 'amt' not in m or m['op'] == '?':
                    ck.ob('no-rate-no-fee:moved', w, False, 'unknown movement ' + I.show(m['ix'])[:200], 'norate-unknown@' + k)
                    continue
                if N.eq(m['amt'], C(0)):
                    continue
                tofee = [I.key(n) for n in ('pool_fee', 'host_fee') if I.has(n)]
                ck.ob('no-rate-no-fee:no fee account', w, m['op'] == 'burn' or not any(F.eq(m['b'], t) for t in tofee), lambda: I.show(m['ix'])[:300], 'norate-fee@' + k)
                a = m['amt']
                caps = [I.tok(n, 'amount') for n in ('vault_a', 'vault_b', 'vault_out') if I.has(n)]
                ok = any(N.eq(a, x) or any(N.eq(a, binop('min', c, x)) or N.eq(a, binop('min', x, c)) for c in caps) for x in allow)
                ok = ok or any(N.eq(a, c) and any(F.decide(mk_lt(x, c)) is False for x in allow) for c in caps)
                ck.ob('no-rate-no-fee:moved', w, ok, lambda: '%s of %s' % (m['op'], I.show(a)[:300]), 'norate-amount:%s@%s' % (m['op'], k))
        ck.need(nmv, 'movements of %s without fee rates' % k)
    n = 0
    I = ck.instr('init_linear')
    for p in I.ok:
        for e in p.effects:
            if e[0] == 'pack' and e[1] == 'SwapV1':
                fees = fld(e[2], I.prog.fidx('SwapV1', 'fees'))
                for f in FEEF[0::2]:
                    n += 1
                    x = fld(fees, I.prog.fidx('Fees', f))
                    ck.ob('linear-has-no-rates', pathname(I, p) + ' ' + f, p.facts.eq(x, C(0)), lambda: '%s is recorded' % I.show(x), 'linear-rate:' + f)
    ck.need(n, 'recorded fees of init_linear')


# ------------------------------------------------------------------------------------------------ J03

AMBIENT = re.compile(r'Clock|\bRent\b|sysvar|Sysvar|SystemTime|Instant\b|\brand\b|getrandom|\benv::|\bfs::|\bnet::|\bthread|LocalKey|Atomic|Mutex|RwLock|Once|Lazy|'
                     r'RandomState|Hash(?:Map|Set)|stack_height|compute_units|return_data|std::process|std::io|std::time|core::time|Duration')
STATIC = re.compile(r'const \{alloc\d+(?:<[^>]*>)?: ([^}]*)\}|(/\*tls\*/[^;]*)|(PointerExposeProvenance|PointerExposeAddress)')
SHARED = re.compile(r'\*mut |&mut |Atomic|Mutex|RwLock|Cell|Once|Lazy|tls|Expose')


@prop('J03')
def j03(ck):
    ck.rule('no-ambient-input', 'no function of the program calls a clock, a sysvar, a random source, the environment, a thread, a hash with a random seed, or the '
            'return data of another program')
    ck.rule('no-shared-state', 'no function of the program touches a thread local, a mutable static or a static with interior mutability, nor turns an address into a number')
    P = ck.prog()
    n = nc = 0
    for c, l in sorted(P.by_canon.items()):
        if c.startswith('__idl') or c.split('::')[-1].startswith('__idl'):
            continue                       # the framework's own interface-description instruction
        for f in l:
            n += 1
            parse_body(f)
            ks = set()
            for b in f.blocks:
                t = f.blocks[b][1]
                if t[0] == 'call' and isinstance(t[2], str):
                    ks.add(canon_call(t[2]))
            nc += len(ks)
            amb = sorted(k for k in ks if AMBIENT.search(k))
            ck.ob('no-ambient-input', '%s: %d callees' % (c, len(ks)), not amb, lambda: '%s calls %s' % (c, ', '.join(amb)), 'ambient:' + c)
            raw = f.raw if isinstance(f.raw, str) else '\n'.join(map(str, f.raw))
            bad = sorted({m.group(0) for m in STATIC.finditer(raw) if SHARED.search(m.group(0))})
            ck.ob('no-shared-state', c, not bad, lambda: '%s uses %s' % (c, ', '.join(bad)[:300]), 'shared:' + c)
    ck.need(n, 'functions of the program')
    ck.need(nc, 'calls of the program')


# ------------------------------------------------------------------------------------------------ J04

def client_metas(P, f):
    """[(field, writable, signer)] pushed by a generated to_account_metas, in order; None if it does not build metas from constants"""
    parse_body(f)
    defs, out, b, seen = {}, [], min(f.blocks), set()

    def field(op, depth=0):
        if op[0] != 'pl' or depth > 20:
            return None
        l, pr = op[1]
        for k, x in enumerate(pr):
            if l == f.args[0] and x[0] == 'fld':
                return x[1]
        d = defs.get(l)
        if d is None:
            return None
        if d[0] == 'use':
            return field(d[1], depth + 1)
        if d[0] == 'ref':
            return field(('pl', d[2]), depth + 1)
        if d[0] == 'call':
            return field(d[1], depth + 1)
        return None
    while b not in seen:
        seen.add(b)
        ss, t = f.blocks[b][0], f.blocks[b][1]
        for s in ss:
            a = s[0]
            if a[0] == 'assign' and not a[1][1]:
                defs[a[1][0]] = a[2]
        if t[0] == 'call':
            k = canon_call(t[2]) if isinstance(t[2], str) else ''
            if k.startswith('AccountMeta::new'):
                sg = t[3][1]
                out.append((field(t[3][0]), k == 'AccountMeta::new', {'true': True, 'false': False}.get(sg[1]) if sg[0] == 'const' else None))
            elif len(t[3]) == 1 and not t[1][1]:
                defs[t[1][0]] = ('call', t[3][0])
            b = t[4]
        elif t[0] == 'goto':
            b = t[1]
        elif t[0] == 'drop':
            b = next((x for x in t[1:] if isinstance(x, int)), None)
        else:
            break
        if b is None:
            break
    return out


@prop('J04')
def j04(ck):
    ck.rule('published-order', 'the account lists generated for clients name one account per position, in the order in which the program reads them')
    ck.rule('published-writable', 'an account is marked writable for clients exactly if some success path of the instruction changes it')
    ck.rule('published-signer', 'an account is marked a signer for clients exactly if every success path of the instruction tests its signature')
    n = 0
    groups = [[k] for k in ('swap', 'deposit_all', 'deposit_single', 'withdraw_all', 'withdraw_single')] + [INIT_INSTR]
    for ks in groups:
        names = ACCTS['initialize' if ks[0].startswith('init') else ks[0]]
        written, signs = set(), set(names)
        for k in ks:
            I = ck.instr(k)
            ck.need(len(I.ok), 'success paths of ' + k)
            for p in I.ok:
                F = p.facts
                signs &= {r for r in names if F.decide(fld(I.acct(r), AI['is_signer'])) is True}
                for m in moves(I, p):
                    if 'amt' in m:
                        for r in names:
                            if any(F.eq(m[z], I.key(r)) for z in 'ab'):
                                written.add(r)
                for e in p.effects:
                    if e[0] in ('pack', 'store', 'opaque_mut'):
                        for r in names:
                            if any(x is I.acct(r) for t in e[1:] if isinstance(t, T) for x in walk(t)) and \
                                    any(x.op == 'data' and x.args[0] is I.acct(r) for t in (e[3:4] if e[0] == 'pack' else e[1:2]) if isinstance(t, T) for x in walk(t)):
                                written.add(r)
        P = ck.prog()
        st = {k[1:].split(' as ')[0] for i in ks for k in callee_names(P, P.fn(ENTRY[i])) if k.endswith(' as Accounts>::try_accounts')}
        ck.ob('published-order:one account list', '+'.join(ks), len(st) == 1, 'account lists read: %s' % sorted(st), 'lists@' + ks[0])
        for s in st:
            for f in P.by_canon.get('<%s as Accounts>::to_account_metas' % s, []):
                ms = client_metas(P, f)
                if not ms:
                    continue               # the instruction's own accounts, whose flags are those of the transaction
                n += 1
                w = '%s (%s)' % ('+'.join(ks), 'cross-program calls' if 'cpi' in f.name.split('::')[0] else 'clients')
                ck.ob('published-order', w, [m[0] for m in ms] == list(range(len(names))), 'positions %s' % [m[0] for m in ms], 'order@' + ks[0])
                for r, m in zip(names, ms):
                    ck.ob('published-writable', w + ' ' + r, m[1] == (r in written), '%s is %s' % (r, 'changed but marked read-only' if r in written else 'marked writable but never changed'),
                          'writable:%s@%s' % (r, ks[0]))
                    ck.ob('published-signer', w + ' ' + r, m[2] == (r in signs), '%s is %s' % (r, 'required to sign but not marked' if r in signs else 'marked a signer but not required to sign'),
                          'signer:%s@%s' % (r, ks[0]))
    ck.need(n >= 12 and n, 'account lists generated for clients')


def callee_names(P, f):
    parse_body(f)
    return {canon_call(f.blocks[b][1][2]) for b in f.blocks if f.blocks[b][1][0] == 'call' and isinstance(f.blocks[b][1][2], str)}
