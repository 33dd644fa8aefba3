"""Instruction level properties: accounts, authority, movements, limits (families A, B, C, D02, D03)."""
from .common import *

SWAPS = ['swap', 'swap_host']
ALLTRADE = ['swap', 'swap_host', 'deposit_all', 'deposit_single', 'withdraw_all', 'withdraw_single']


def each(ck, kinds, need=True):
    for k in kinds:
        I = ck.instr(k)
        if need:
            ck.need(len(I.ok), 'success paths of %s' % k)
        for p in I.ok:
            yield I, p


def where(I, p, extra=''):
    d = dirs(I, p) if I.has('vault_in') else None
    return '%s%s [%s]%s' % (I.kind, ' ' + d if d else '', '+'.join(m['op'] for m in moves(I, p)) or 'no movement', extra)


def tail(p, n=6):
    return 'path facts: ' + '; '.join('%s%s' % ('' if t else 'not ', pp(l)[:110]) for l, t in p.facts.literals()[-n:])


def vaults(I):
    return ('vault_in', 'vault_out') if I.has('vault_in') else ('vault_a', 'vault_b')


@prop('A01')
def a01(ck):
    ck.rule('binding', 'every success path of every trading instruction establishes by an equality test that the pool account is '
            'owned by the program, that the authority is the address derived from the pool key and recorded bump, and that vaults, '
            'pool mint, fee account and token program are the recorded ones')
    for I, p in each(ck, ALLTRADE):
        F, w = p.facts, where(I, p)

        def eq(what, a, b):
            ck.ob('binding:' + what, w, F.eq(a, b), lambda: 'no equality %s == %s on a success path' % (I.show(a), I.show(b)),
                  'binding:%s@%s' % (what, I.kind))
        eq('pool account owner', fld(I.acct('pool_state'), AI['owner']), I.pid)
        eq('pool account version byte', idx(I.data('pool_state'), 0), C(1))
        ck.ob('binding:pool state parsed from the pool account', w, F.variant(T('call', 'SwapV1::unpack', view(I.data('pool_state'), 1, None))) == 'Ok',
              'the recorded state used is not the successfully parsed data of the pool account', 'binding:state@' + I.kind)
        eq('authority', I.key('authority'), pool_pda(I))
        eq('pool mint', I.key('pool_mint'), I.st('pool_mint'))
        eq('token program', I.key('token_program'), I.st('token_program_id'))
        if I.has('pool_fee'):
            eq('fee account', I.key('pool_fee'), I.st('pool_fee_account'))
        if I.has('vault_a'):
            eq('vault A', I.key('vault_a'), I.st('token_a'))
            eq('vault B', I.key('vault_b'), I.st('token_b'))
        else:
            ck.ob('binding:vault pair', w, dirs(I, p) is not None,
                  lambda: 'the two vaults are not established as the recorded pair; ' + tail(p), 'binding:vaults@' + I.kind)


@prop('A02')
def a02(ck):
    ck.rule('no-self-transfer', 'for each token transfer issued on a success path the two account keys are established different, and '
            'a transfer with the user\'s authority ends at a vault or the fee account, one with the pool authority starts at a vault')
    n = 0
    for I, p in each(ck, ALLTRADE):
        F, w = p.facts, where(I, p)
        if I.has('vault_in'):
            ck.ob('distinct-vaults', w, F.ne(I.key('vault_in'), I.key('vault_out')) or
                  F.ne(I.st('token_a'), I.key('vault_out')) or dirs(I, p) is not None and F.ne(I.st('token_a'), I.st('token_b')),
                  'swap accepts the same vault on both sides', 'distinct-vaults@' + I.kind)
        for m in moves(I, p):
            if m['op'] != 'transfer':
                continue
            n += 1
            ra, rb = find_role(I, F, m['a']), find_role(I, F, m['b'])
            fee = 'pool_fee' in rb
            if fee and not F.ne(m['a'], m['b']):
                # pool token fee leg: the payer's account differs from the fee account, else the fee is waived
                ok = False
            else:
                ok = F.ne(m['a'], m['b'])
            ck.ob('distinct-ends', w, ok, lambda: 'transfer %s -> %s without an inequality test of the two keys'
                  % (I.show(m['a']), I.show(m['b'])), 'distinct-ends@%s:%s->%s' % (I.kind, ra[:1], rb[:1]))
    ck.need(n, 'token transfers')


@prop('A03')
def a03(ck):
    ck.rule('authority', 'tokens leave a user account only by an instruction naming the signing user authority; tokens leave a vault, or '
            'are minted, only by the pool authority; user movements are absent unless the user authority account is a signer')
    n = 0
    for I, p in each(ck, ALLTRADE):
        F, w = p.facts, where(I, p)
        if I.kind != 'swap_host':        # the host-fee variant is not behind the account parser that tests signers
            ck.ob('user authority signs', w, F.decide(fld(I.acct('user_authority'), AI['is_signer'])) is True,
                  'success path without a signer test of the user transfer authority', 'signer@' + I.kind)
        V = [I.key(v) for v in vaults(I)]
        for m in moves(I, p):
            n += 1
            if m['op'] == '?':
                ck.ob('authority', w, False, 'unrecognised cross-program call ' + I.show(m['ix']), 'cpi-unknown@' + I.kind)
                continue
            frm = m['a']
            vault = any(F.eq(frm, v) for v in V)
            pool = m['op'] == 'mint_to' or vault
            want = I.key('authority') if pool else I.key('user_authority')
            ck.ob('authority', w, F.eq(m['auth'], want),
                  lambda: '%s from %s is authorised by %s, expected %s' % (m['op'], I.show(frm), I.show(m['auth']), I.show(want)),
                  'authority@%s:%s:%s' % (I.kind, m['op'], (find_role(I, F, frm) or ['?'])[0]))
            if pool:
                ck.ob('derived authority', w, F.eq(m['auth'], pool_pda(I)),
                      lambda: '%s from %s is authorised by %s, not established to be the address derived from the pool' % (m['op'], I.show(frm), I.show(m['auth'])),
                      'derived-authority@%s:%s' % (I.kind, m['op']))
            ck.ob('no unrelated authority change', w, m['op'] in ('transfer', 'mint_to', 'burn'),
                  'token instruction %s issued' % m['op'], 'op@%s:%s' % (I.kind, m['op']))
    for k in INIT_INSTR:
        I = ck.instr(k)
        ck.need(len(I.ok), 'success paths of ' + k)
        for p in I.ok:
            ck.ob('pool account signs its initialization', where(I, p), p.facts.decide(fld(I.acct('pool_state'), AI['is_signer'])) is True,
                  'initialization does not require the pool account to sign', 'signer@' + k)
    ck.need(n, 'token movements')


@prop('A04')
def a04(ck):
    ck.rule('preconditions', 'every success path of both initialize instructions establishes each listed fact about the accounts')
    for I, p in each(ck, ANY_INIT):
        F, w = p.facts, where(I, p)
        A = I.key('authority')

        def ob(what, ok, d=''):
            ck.ob('precondition:' + what, w, ok, d or ('not established on a success path of %s; ' % I.kind) + tail(p),
                  'init:%s@%s' % (what, I.kind))
        f = [x for t, tr in F.literals() if tr and t.op == 'eq' for x in t.args if x.op in ('fpda', 'pda') and F.eq(x, A)]
        seedok = any(x.args[0] is agg('array', None, T('bytes', I.key('pool_state'))) and F.eq(x.args[1], I.pid) for x in f if x.op == 'fpda')
        ob('authority is the canonical address derived from the pool key', seedok, lambda: '; '.join(pp(x) for x in f))
        for v in ('token_a', 'token_b'):
            ob(v + ' vault owned by the pool authority', F.eq(I.tok(v, 'owner'), A))
            ob(v + ' vault has no delegate', F.variant(I.tok(v, 'delegate')) == 'None')
            ob(v + ' vault has no close authority', F.variant(I.tok(v, 'close_authority')) == 'None')
            ob(v + ' vault is a token program account', F.eq(fld(I.acct(v), AI['owner']), I.key('token_program')))
        ob('vault mints differ', F.ne(I.tok('token_a', 'mint'), I.tok('token_b', 'mint')))
        ob('pool mint is a token program account', F.eq(fld(I.acct('pool_mint'), AI['owner']), I.key('token_program')))
        ob('pool mint controlled by the pool authority', F.variant(I.mint('pool_mint', 'mint_authority')) == 'Some' and
           F.eq(fld(I.mint('pool_mint', 'mint_authority'), 0, 'Some'), A))
        ob('pool mint has no freeze authority', F.variant(I.mint('pool_mint', 'freeze_authority')) == 'None')
        ob('pool mint supply is zero', F.eq(I.mint('pool_mint', 'supply'), C(0)))
        for v in ('pool_fee', 'pool_dest'):
            ob(v + ' account not owned by the pool authority', F.ne(I.tok(v, 'owner'), A))
            ob(v + ' is a token program account', F.eq(fld(I.acct(v), AI['owner']), I.key('token_program')))
        ob('fee account holds pool tokens', F.eq(I.tok('pool_fee', 'mint'), I.key('pool_mint')))
        if I.kind == 'init_price':
            ob('token_a vault is not empty', Norm(F).gt0(I.tok('token_a', 'amount')))
        elif I.kind == 'init_any':
            t = [x for x, v in ((x, v) for x, v in F.literals() if v) if x.op == 'is' and x.args[0].op == 'call' and
                 x.args[0].args[0] == CALC + 'validate_supply' and x.args[1] == 'Ok' and x.args[0].args[1] is calc_arg(I)]
            ob('the curve accepts the starting balances', any(F.eq(x.args[0].args[2], I.tok('token_a', 'amount')) and
               F.eq(x.args[0].args[3], I.tok('token_b', 'amount')) for x in t))
        else:
            ob('token_b vault is not empty', Norm(F).gt0(I.tok('token_b', 'amount')))
            ob('token_a vault is empty', F.eq(I.tok('token_a', 'amount'), C(0)))


def calc_arg(I):
    """the calculator of the curve process_initialize is given"""
    return fld(I.a('swap_curve'), I.prog.fidx('SwapCurve', 'calculator'))


def initialized_facts(I, F):
    """the pool account already holds an initialized pool"""
    d = I.data('pool_state')
    F.assume_var(T('chk_nonempty', d), 'Some')
    F.assume(mk_eq(T('len', d), C(0)), False)
    F.assume(mk_eq(C(1), idx(d, 0)), True)
    v = view(d, 1, None)
    F.assume_var(T('call', 'SwapV1::unpack', v), 'Ok')
    F.assume(I.st('is_initialized'), True)
    return F


@prop('A05')
def a05(ck):
    ck.rule('initialize-once', 'with the pool account assumed to hold an initialized pool, no path of an initialize instruction succeeds '
            'and no path reaches an effect')
    ck.rule('state-written-only-by-initialize', 'no trading instruction has a write to any account data among its effects')
    for k in ANY_INIT:
        I = ck.instr(k)
        ck.need(len(I.ok), 'success paths of ' + k)
        F = initialized_facts(I, Facts())
        r = ck.root(ENTRY.get(k, 'Processor::process_initialize'), facts=F, tag='+initialized')
        ck.ob('initialize-once', k, not r.ok, lambda: 'a success path exists for an already initialized pool account', 'reinit@' + k)
        ck.ob('initialize-once: rejected before any effect', k, not any(p.effects for p in r.paths),
              'a path has effects before the account is found to be in use', 'reinit-effect@' + k)
        for p in I.ok:
            wr = [e for e in p.effects if e[0] in ('pack', 'store', 'opaque_mut')]
            bad = [e for e in wr if not any(x is I.acct('pool_state') for t in e[1:] if isinstance(t, T) for x in walk(t))]
            ck.ob('initialize writes only the pool account', where(I, p), not bad,
                  lambda: 'write to ' + str([I.show(x) for e in bad for x in e[1:3]])[:300], 'init-write@' + k)
    for I, p in each(ck, ALLTRADE):
        wr = [e for e in p.effects if e[0] in ('pack', 'store', 'opaque_mut')]
        ck.ob('state-written-only-by-initialize', where(I, p), not wr,
              lambda: 'account data written: ' + str([I.show(x) for e in wr for x in e[1:3]])[:300], 'trade-write@' + I.kind)


FEEF = ['trade_fee_numerator', 'trade_fee_denominator', 'owner_trade_fee_numerator', 'owner_trade_fee_denominator',
        'owner_withdraw_fee_numerator', 'owner_withdraw_fee_denominator', 'host_fee_numerator', 'host_fee_denominator']


def packed(p):
    return [e for e in p.effects if e[0] == 'pack']


@prop('A06')
def a06(ck):
    ck.rule('recorded-state', 'the value written by initialize has, field by field, the key/mint/argument it stands for, is flagged '
            'initialized, and is preceded by version byte 1')
    for I, p in each(ck, ANY_INIT):
        F, w, P = p.facts, where(I, p), I.prog
        pk = [e for e in packed(p) if e[1] == 'SwapV1']
        ck.ob('one state write', w, len(pk) == 1, 'initialize writes the state %d times' % len(pk), 'state-writes@' + I.kind)
        for e in pk:
            v, dst = e[2], e[3]

            def ob(what, t, want):
                ck.ob('recorded-state:' + what, w, F.eq(t, want), lambda: '%s is recorded, expected %s' % (I.show(t), I.show(want)),
                      'record:%s@%s' % (what, I.kind))
            g = lambda f: fld(v, P.fidx('SwapV1', f))
            ob('is_initialized', g('is_initialized'), TRUE)
            bumps = [x for t, _ in F.literals() for y in walk(t) if y.op == 'fpda' and F.eq(y, I.key('authority')) for x in [T('bump', *y.args)]]
            ck.ob('recorded-state:bump seed', w, any(F.eq(g('bump_seed'), b) for b in bumps), lambda: 'bump recorded: ' + I.show(g('bump_seed')),
                  'record:bump@' + I.kind)
            ob('token program', g('token_program_id'), I.key('token_program'))
            ob('vault A', g('token_a'), I.key('token_a'))
            ob('vault B', g('token_b'), I.key('token_b'))
            ob('pool mint', g('pool_mint'), I.key('pool_mint'))
            ob('mint of A', g('token_a_mint'), I.tok('token_a', 'mint'))
            ob('mint of B', g('token_b_mint'), I.tok('token_b', 'mint'))
            ob('fee account', g('pool_fee_account'), I.key('pool_fee'))
            fees, cv = g('fees'), g('swap_curve')
            for i, f in enumerate(FEEF):
                ob(f, fld(fees, P.fidx('Fees', f)), fld(I.a('fees'), P.fidx('Fees', f)) if I.kind == 'init_any' else
                   I.a(i) if I.kind == 'init_price' else C(i % 2))
            ct, calc = fld(cv, P.fidx('SwapCurve', 'curve_type')), fld(cv, P.fidx('SwapCurve', 'calculator'))
            want = 'ConstantPrice' if I.kind == 'init_price' else 'LinearPrice'
            if I.kind == 'init_any':
                ob('curve type', ct, fld(I.a('swap_curve'), P.fidx('SwapCurve', 'curve_type')))
                ob('calculator', calc, calc_arg(I))
            else:
                ck.ob('recorded-state:curve type', w, ct.op == 'agg' and ct.args[1] == want, 'curve type ' + I.show(ct), 'record:curve@' + I.kind)
                ck.ob('recorded-state:calculator', w, calc.op == 'dyn' and calc.args[1] == want + 'Curve', 'calculator ' + I.show(calc), 'record:calc@' + I.kind)
            if I.kind != 'init_any' and calc.op == 'dyn' and calc.args[1] == want + 'Curve':
                if I.kind == 'init_price':
                    ob('token_b_price', fld(calc, P.fidx('ConstantPriceCurve', 'token_b_price')), I.a(8))
                else:
                    for i, f in enumerate(['slope_numerator', 'slope_denominator', 'initial_token_a_price_numerator',
                                           'initial_token_a_price_denominator']):
                        ob(f, fld(calc, P.fidx('LinearPriceCurve', f)), I.a(i))
            base = dst
            ck.ob('state written after the version byte of the pool account', w, dst.op == 'view' and dst.args[1] == 1 and
                  dst.args[0].op == 'data' and dst.args[0].args[0] is I.acct('pool_state'), 'destination ' + I.show(dst), 'record:dst@' + I.kind)
            vb = [x for x in p.effects if x[0] == 'store' and x[1].op == 'idx' and x[1].args[0].op == 'data' and x[1].args[1] == 0
                  and x[1].args[0].args[0] is I.acct('pool_state')]
            ck.ob('version byte is 1', w, len(vb) >= 1 and F.eq(vb[-1][2], C(1)), 'version byte not written as 1', 'record:version@' + I.kind)
        mv = moves(I, p)
        ck.ob('initial pool tokens', w, len(mv) == 1 and mv[0]['op'] == 'mint_to' and F.eq(mv[0]['a'], I.key('pool_mint')) and
              F.eq(mv[0]['b'], I.key('pool_dest')) and F.eq(mv[0]['auth'], I.key('authority')) and F.eq(mv[0]['amt'], T('call', CALC + 'new_pool_supply', calc_arg(I)) if I.kind == 'init_any' else C(10 ** 9)),
              lambda: 'movements of initialize: ' + '; '.join(I.show(m['ix']) for m in mv), 'init-mint@' + I.kind)


@prop('A07')
def a07(ck):
    ck.rule('parsed-accounts-owned-by-token-program', 'whenever a token account or mint is parsed and a path succeeds or reaches a '
            'movement, that path tested the account\'s owner against the pool\'s token program')
    n = 0
    for k in ALLTRADE + ANY_INIT:
        I = ck.instr(k)
        ck.need(len(I.ok), 'success paths of ' + k)
        for p in I.ok:
            F, w = p.facts, where(I, p)
            tp = I.key('token_program')
            seen = set()
            for t, tr in F.literals():
                if not (tr and t.op == 'is' and t.args[1] == 'Ok' and t.args[0].op == 'call' and
                        t.args[0].args[0] in ('Account::unpack', 'Mint::unpack')):
                    continue
                d = t.args[0].args[1]
                if d in seen or d.op != 'data':
                    ck.ob('parsed data belongs to an account', w, d.op == 'data', 'parsed from ' + I.show(d), 'parsed-src@' + k)
                    continue
                seen.add(d)
                n += 1
                a = d.args[0]
                own = fld(a, AI['owner'])
                ok = F.eq(own, tp) or (k in TRADE_INSTR + ['swap_host'] and F.eq(own, I.st('token_program_id')))
                ck.ob('parsed-accounts-owned-by-token-program', w, ok, lambda: 'owner of %s not tested' % I.show(a),
                      'parsed-owner@%s:%s' % (k, I.show(a)))
    ck.need(n, 'parsed token accounts')


# ------------------------------------------------------------------------------------------------ movements

def expect(ck, I, p, rule, exp, extra_ok=()):
    """exp: list of (name, op, a, b, auth, amount).  Each actual movement matches one expected, in role and amount; an
    expected movement may be missing only if its amount is known to be zero."""
    F, N, w = p.facts, Norm(p.facts), where(I, p)
    left = list(exp)
    for m in moves(I, p):
        hit = None
        for x in left:
            if m['op'] == x[1] and F.eq(m['a'], x[2]) and F.eq(m['b'], x[3]):
                hit = x
                if N.eq(m['amt'], x[5]):
                    break
        ck.ob(rule + ':only specified movements', w, hit is not None,
              lambda: 'unexpected %s' % (I.show(m['ix'])), '%s:unexpected:%s@%s' % (rule, m['op'], I.kind))
        if hit is None:
            continue
        left.remove(hit)
        ck.ob('%s:%s amount' % (rule, hit[0]), w, N.eq(m['amt'], hit[5]),
              lambda: '%s moves %s, expected %s' % (hit[0], I.show(N.term(m['amt'])), I.show(N.term(hit[5]))), '%s:amount:%s@%s' % (rule, hit[0], I.kind))
    for x in left:
        ck.ob('%s:%s present' % (rule, x[0]), w, N.eq(x[5], C(0)), lambda: '%s of %s is missing on a success path' % (x[0], I.show(x[5])),
              '%s:missing:%s@%s' % (rule, x[0], I.kind))


def swap_result(I, p):
    d = dirs(I, p)
    t = T('call', 'SwapCurve::swap', I.st('swap_curve'), I.a('amount_in'), I.tok('vault_in', 'amount'), I.tok('vault_out', 'amount'),
          direction(d), I.st('fees'))
    return t


def rfield(I, t, f):
    return fld(fld(t, 0, 'Some'), I.prog.fidx('SwapResult', f))


def owner_fee_tokens(I, p):
    """pool tokens worth the owner fee, at the post-swap vault amounts"""
    d = dirs(I, p)
    R = swap_result(I, p)
    s, t = rfield(I, R, 'new_swap_source_amount'), rfield(I, R, 'new_swap_destination_amount')
    a, b = (s, t) if d == 'AtoB' else (t, s)
    return fld(T('call', 'SwapCurve::withdraw_single_token_type_exact_out', I.st('swap_curve'), rfield(I, R, 'owner_fee'), a, b,
                 I.mint('pool_mint', 'supply'), direction(d), I.st('fees')), 0, 'Some')


@prop('B01')
def b01(ck):
    ck.rule('swap-movements', 'on each success path the user pays exactly the result\'s source amount into the pool\'s input vault, gets '
            'exactly its destination amount from the output vault, and the only other movements are mints of pool tokens')
    ck.rule('swap-result', 'the result is the pool curve\'s, for the instruction\'s amount, the two vaults\' recorded balances and the '
            'direction given by which vault is the input')
    for I, p in each(ck, SWAPS):
        F, w, d = p.facts, where(I, p), dirs(I, p)
        if d is None:
            ck.ob('swap-direction', w, False, 'direction of the swap not established', 'swap-direction@' + I.kind)
            continue
        R = swap_result(I, p)
        ck.ob('swap-result', w, F.variant(R) == 'Some', lambda: 'expected %s; calls on path: %s' % (
            I.show(R), [I.show(x) for m in moves(I, p) if 'amt' in m for x in calls(m['amt'], 'SwapCurve::swap')][:1]), 'swap-result@' + I.kind)
        q = Path.__new__(Path)
        rest = [m for m in moves(I, p) if m['op'] == 'mint_to']
        for m in rest:
            ck.ob('mints are pool tokens for the fee accounts', w, F.eq(m['a'], I.key('pool_mint')) and
                  (F.eq(m['b'], I.key('pool_fee')) or I.kind == 'swap_host' and F.eq(m['b'], I.key('host_fee'))),
                  lambda: I.show(m['ix']), 'swap-mint@' + I.kind)
        exp = [('pay in', 'transfer', I.key('user_source'), I.key('vault_in'), I.key('user_authority'), rfield(I, R, 'source_amount_swapped')),
               ('pay out', 'transfer', I.key('vault_out'), I.key('user_dest'), I.key('authority'), rfield(I, R, 'destination_amount_swapped'))]
        exp += [('fee mint', 'mint_to', m['a'], m['b'], m['auth'], m['amt']) for m in rest]
        expect(ck, I, p, 'swap', exp)


def supply_case(I, p):
    N = Norm(p.facts)
    s = I.mint('pool_mint', 'supply')
    if N.gt0(s):
        return 'live'
    if p.facts.eq(s, C(0)):
        return 'empty'
    return None


def calc_of(I):
    return fld(I.st('swap_curve'), I.prog.fidx('SwapCurve', 'calculator'))


def trading_tokens(I, amt, supply, rnd):
    return T('call', CALC + 'pool_tokens_to_trading_tokens', calc_of(I), amt, supply, I.tok('vault_a', 'amount'), I.tok('vault_b', 'amount'),
             agg('RoundDirection', rnd))


def new_supply(ck, I, p):
    """pool tokens minted for the first deposit of an emptied pool"""
    return T('call', CALC + 'new_pool_supply', calc_of(I))


def deposit_all_exp(ck, I, p):
    F = p.facts
    sc = supply_case(I, p)
    if sc is None:
        return None
    amt, sup = (I.a('pool_token_amount'), I.mint('pool_mint', 'supply')) if sc == 'live' else (new_supply(ck, I, p),) * 2
    R = trading_tokens(I, amt, sup, 'Ceiling')
    a, b = (fld(fld(R, 0, 'Some'), I.prog.fidx('TradingTokenResult', f)) for f in ('token_a_amount', 'token_b_amount'))
    return amt, R, a, b


def side(I, p, user):
    """which pool token the user account of a one-sided instruction holds, per the path's mint comparison"""
    F = p.facts
    m = I.tok(user, 'mint')
    a, b = F.eq(m, I.tok('vault_a', 'mint')), F.eq(m, I.tok('vault_b', 'mint'))
    return 'a' if a else 'b' if b else None


def deposit_single_exp(ck, I, p):
    sc, s = supply_case(I, p), side(I, p, 'user_source')
    if sc is None or s is None:
        return None
    if sc == 'empty':
        return s, new_supply(ck, I, p), None
    R = T('call', 'SwapCurve::deposit_single_token_type', I.st('swap_curve'), I.a('source_token_amount'), I.tok('vault_a', 'amount'),
          I.tok('vault_b', 'amount'), I.mint('pool_mint', 'supply'), direction('AtoB' if s == 'a' else 'BtoA'), I.st('fees'))
    return s, fld(R, 0, 'Some'), R


@prop('B02')
def b02(ck):
    ck.rule('deposit-movements', 'each deposit moves exactly the user\'s tokens into the matching vaults and mints exactly the priced pool '
            'tokens to the user\'s pool token account')
    for I, p in each(ck, ['deposit_all']):
        x = deposit_all_exp(ck, I, p)
        if x is None:
            ck.ob('deposit-case', where(I, p), False, 'path does not distinguish an empty from a live pool', 'deposit-case@' + I.kind)
            continue
        amt, R, a, b = x
        ck.ob('deposit-priced-by-curve', where(I, p), p.facts.variant(R) == 'Some', lambda: 'expected price ' + I.show(R), 'deposit-price@' + I.kind)
        expect(ck, I, p, 'deposit', [
            ('token A', 'transfer', I.key('user_a'), I.key('vault_a'), I.key('user_authority'), a),
            ('token B', 'transfer', I.key('user_b'), I.key('vault_b'), I.key('user_authority'), b),
            ('pool tokens', 'mint_to', I.key('pool_mint'), I.key('user_pool'), I.key('authority'), amt)])
    for I, p in each(ck, ['deposit_single']):
        x = deposit_single_exp(ck, I, p)
        if x is None:
            ck.ob('deposit-case', where(I, p), False, 'side or supply case of a one-sided deposit not established', 'deposit-case@' + I.kind)
            continue
        s, amt, R = x
        if R is not None:
            ck.ob('deposit-priced-by-curve', where(I, p), p.facts.variant(R) == 'Some', lambda: 'expected price ' + I.show(R), 'deposit-price@' + I.kind)
        expect(ck, I, p, 'deposit', [
            ('token', 'transfer', I.key('user_source'), I.key('vault_' + s), I.key('user_authority'), I.a('source_token_amount')),
            ('pool tokens', 'mint_to', I.key('pool_mint'), I.key('user_pool'), I.key('authority'), amt)])


def fee_waived(I, p):
    F = p.facts
    if F.eq(I.key('pool_fee'), I.key('user_pool')):
        return True
    if F.ne(I.key('pool_fee'), I.key('user_pool')):
        return False
    return None


def owner_withdraw_fee(I, amt):
    return T('call', 'Fees::owner_withdraw_fee', I.st('fees'), amt)


def withdraw_all_exp(I, p):
    wv = fee_waived(I, p)
    if wv is None:
        return None
    req = I.a('pool_token_amount')
    fee = C(0) if wv else fld(owner_withdraw_fee(I, req), 0, 'Some')
    net = binop('sub', req, fee)
    R = trading_tokens(I, net, I.mint('pool_mint', 'supply'), 'Floor')
    a, b = (fld(fld(R, 0, 'Some'), I.prog.fidx('TradingTokenResult', f)) for f in ('token_a_amount', 'token_b_amount'))
    return wv, fee, net, R, binop('min', I.tok('vault_a', 'amount'), a), binop('min', I.tok('vault_b', 'amount'), b)


def withdraw_single_exp(I, p):
    wv, s = fee_waived(I, p), side(I, p, 'user_dest')
    if wv is None or s is None:
        return None
    R = T('call', 'SwapCurve::withdraw_single_token_type_exact_out', I.st('swap_curve'), I.a('destination_token_amount'),
          I.tok('vault_a', 'amount'), I.tok('vault_b', 'amount'), I.mint('pool_mint', 'supply'),
          direction('AtoB' if s == 'a' else 'BtoA'), I.st('fees'))
    burn = fld(R, 0, 'Some')
    fee = C(0) if wv else fld(owner_withdraw_fee(I, burn), 0, 'Some')
    return wv, s, R, burn, fee


@prop('B03')
def b03(ck):
    ck.rule('withdraw-movements', 'each withdrawal burns exactly the priced pool tokens of the user, moves exactly the withdrawal fee to the '
            'fee account, and pays exactly the priced tokens from the matching vaults')
    for I, p in each(ck, ['withdraw_all']):
        x = withdraw_all_exp(I, p)
        if x is None:
            ck.ob('withdraw-case', where(I, p), False, 'path does not distinguish fee-account withdrawals', 'withdraw-case@' + I.kind)
            continue
        wv, fee, net, R, a, b = x
        ck.ob('withdraw-priced-by-curve', where(I, p), any(p.facts.variant(q) == 'Some' for q in same_call(p, R)),
              lambda: 'expected price ' + I.show(R), 'withdraw-price@' + I.kind)
        expect(ck, I, p, 'withdraw', [
            ('burn', 'burn', I.key('user_pool'), I.key('pool_mint'), I.key('user_authority'), net),
            ('fee', 'transfer', I.key('user_pool'), I.key('pool_fee'), I.key('user_authority'), fee),
            ('token A', 'transfer', I.key('vault_a'), I.key('user_a'), I.key('authority'), a),
            ('token B', 'transfer', I.key('vault_b'), I.key('user_b'), I.key('authority'), b)])
    for I, p in each(ck, ['withdraw_single']):
        x = withdraw_single_exp(I, p)
        if x is None:
            ck.ob('withdraw-case', where(I, p), False, 'side or fee case of a one-sided withdrawal not established', 'withdraw-case@' + I.kind)
            continue
        wv, s, R, burn, fee = x
        ck.ob('withdraw-priced-by-curve', where(I, p), p.facts.variant(R) == 'Some', lambda: 'expected price ' + I.show(R), 'withdraw-price@' + I.kind)
        expect(ck, I, p, 'withdraw', [
            ('burn', 'burn', I.key('user_pool'), I.key('pool_mint'), I.key('user_authority'), burn),
            ('fee', 'transfer', I.key('user_pool'), I.key('pool_fee'), I.key('user_authority'), fee),
            ('token', 'transfer', I.key('vault_' + s), I.key('user_dest'), I.key('authority'), I.a('destination_token_amount'))])


def same_call(p, t):
    """instances of call t on the path whose arguments are equal under the path facts"""
    N = Norm(p.facts)
    out = [t]
    for k in list(p.facts.var):
        if k.op == 'call' and k.args[0] == t.args[0] and len(k.args) == len(t.args) and all(
                x is y or not isinstance(x, T) or N.eq(x, y) for x, y in zip(k.args[1:], t.args[1:])):
            out.append(k)
    return out


@prop('B04')
def b04(ck):
    ck.rule('cpi-target', 'each cross-program call made on a success path is a token instruction for the pool\'s token program')
    ck.rule('cpi-result', 'its result was tested and was success')
    ck.rule('cpi-seeds', 'a call that needs the pool authority signs with exactly the pool key and the recorded bump, and no call signs with anything else')
    n = 0
    for k in ALLTRADE + ANY_INIT:
        I = ck.instr(k)
        for p in I.paths:
            F, w = p.facts, where(I, p)
            for m in moves(I, p):
                n += 1
                if m['op'] == '?':
                    ck.ob('cpi-target', w, False, I.show(m['ix']), 'cpi-target@' + k)
                    continue
                ck.ob('cpi-target', w, F.eq(m['prog'], I.key('token_program')), lambda: 'program ' + I.show(m['prog']),
                      'cpi-target@%s:%s' % (k, m['op']))
                if succ(p):
                    ck.ob('cpi-result', w, F.variant(m['key']) == 'Ok', lambda: 'result of %s ignored' % I.show(m['ix']),
                          'cpi-result@%s:%s' % (k, m['op']))
                if k in ANY_INIT:
                    s = agg('array', None, T('bytes', I.key('pool_state')))
                    want = [agg('array', None, T('bytes', I.key('pool_state')), agg('array', None, T('bump', s, I.pid)))]
                else:
                    want = [pool_pda(I).args[0]]
                sd = m['seeds']
                have = list(fields(sd)) if isinstance(sd, T) and sd.op == 'agg' else [sd] if sd is not None else []
                if F.eq(m['auth'], I.key('authority')):
                    ck.ob('cpi-seeds', w, any(h is x or F.eq(h, x) for h in have for x in want), lambda: 'seeds ' + I.show(sd),
                          'cpi-seeds@%s:%s' % (k, m['op']))
                # no call is signed for an address that is not the pool's
                ck.ob('cpi-seeds', w, m['seeds'] is None or all(any(h is x or F.eq(h, x) for x in want) for h in have), lambda: 'seeds ' + I.show(sd),
                      'cpi-other-seeds@%s:%s' % (k, m['op']))
    ck.need(n, 'cross-program calls')


# ------------------------------------------------------------------------------------------------ user limits

@prop('C01')
def c01(ck):
    ck.rule('swap-minimum', 'on each success path the amount sent to the user is established >= the minimum the user gave')
    for I, p in each(ck, SWAPS):
        F, N, w = p.facts, Norm(p.facts), where(I, p)
        out = [m for m in moves(I, p) if m['op'] == 'transfer' and F.eq(m['b'], I.key('user_dest')) and F.eq(m['a'], I.key('vault_out'))]
        got = out[0]['amt'] if len(out) == 1 else C(0)
        ck.ob('swap-minimum', w, N.ge(got, I.a('minimum_amount_out')), lambda: 'payout %s not tested against the minimum' % I.show(got),
              'swap-minimum@' + I.kind)


@prop('C02')
def c02(ck):
    ck.rule('deposit-maximum', 'each amount taken from the user is established <= the maximum given for it')
    ck.rule('deposit-minimum', 'the pool tokens minted by a one-sided deposit are established >= the minimum given')
    for I, p in each(ck, ['deposit_all']):
        F, N, w = p.facts, Norm(p.facts), where(I, p)
        for v in 'ab':
            ms = [m for m in moves(I, p) if m['op'] == 'transfer' and F.eq(m['a'], I.key('user_' + v))]
            for m in ms:
                ck.ob('deposit-maximum', w, len(ms) == 1 and N.ge(I.a('maximum_token_%s_amount' % v), m['amt']),
                      lambda: 'token %s: %s not tested against the maximum' % (v, I.show(m['amt'])), 'deposit-maximum:%s@%s' % (v, I.kind))
    for I, p in each(ck, ['deposit_single']):
        F, N, w = p.facts, Norm(p.facts), where(I, p)
        ms = [m for m in moves(I, p) if m['op'] == 'mint_to' and F.eq(m['b'], I.key('user_pool'))]
        got = ms[0]['amt'] if len(ms) == 1 else C(0)
        ck.ob('deposit-minimum', w, N.ge(got, I.a('minimum_pool_token_amount')), lambda: 'minted %s' % I.show(got), 'deposit-minimum@' + I.kind)
        for m in moves(I, p):
            if m['op'] == 'transfer' and F.eq(m['a'], I.key('user_source')):
                ck.ob('deposit-maximum', w, N.ge(I.a('source_token_amount'), m['amt']), lambda: 'takes ' + I.show(m['amt']),
                      'deposit-maximum@' + I.kind)


@prop('C03')
def c03(ck):
    ck.rule('withdraw-minimum', 'each amount paid to the user (zero when no payment is made) is established >= the minimum given for it')
    ck.rule('withdraw-maximum', 'all pool tokens leaving the user (burned plus fee) are established <= the maximum given')
    for I, p in each(ck, ['withdraw_all']):
        F, N, w = p.facts, Norm(p.facts), where(I, p)
        for v in 'ab':
            ms = [m for m in moves(I, p) if m['op'] == 'transfer' and F.eq(m['b'], I.key('user_' + v)) and F.eq(m['a'], I.key('vault_' + v))]
            got = ms[0]['amt'] if len(ms) == 1 else C(0)
            ck.ob('withdraw-minimum', w, len(ms) <= 1 and N.ge(got, I.a('minimum_token_%s_amount' % v)),
                  lambda: 'token %s: pays %s' % (v, I.show(got)), 'withdraw-minimum:%s@%s' % (v, I.kind))
        tot = C(0)
        for m in moves(I, p):
            if m['op'] in ('burn', 'transfer') and F.eq(m['a'], I.key('user_pool')):
                tot = T('add', tot, m['amt'])
        ck.ob('withdraw-maximum', w, N.ge(I.a('pool_token_amount'), tot), lambda: 'pool tokens taken: ' + I.show(N.term(tot)), 'withdraw-maximum@' + I.kind)
    for I, p in each(ck, ['withdraw_single']):
        F, N, w = p.facts, Norm(p.facts), where(I, p)
        tot = C(0)
        for m in moves(I, p):
            if m['op'] in ('burn', 'transfer') and F.eq(m['a'], I.key('user_pool')):
                tot = T('add', tot, m['amt'])
        ck.ob('withdraw-maximum', w, N.ge(I.a('maximum_pool_token_amount'), tot), lambda: 'pool tokens taken: ' + I.show(N.term(tot)),
              'withdraw-maximum@' + I.kind)
        ms = [m for m in moves(I, p) if m['op'] == 'transfer' and F.eq(m['b'], I.key('user_dest'))]
        got = ms[0]['amt'] if len(ms) == 1 else C(0)
        ck.ob('withdraw-exact', w, N.eq(got, I.a('destination_token_amount')), lambda: 'pays ' + I.show(got), 'withdraw-exact@' + I.kind)


@prop('D02')
def d02(ck):
    ck.rule('owner-fee-mint', 'the pool tokens minted in a swap add up to exactly the curve\'s price of the owner fee at the post-swap '
            'balances; the host account, which must hold pool tokens, gets exactly the host share of them and only there')
    for I, p in each(ck, SWAPS):
        F, N, w = p.facts, Norm(p.facts), where(I, p)
        if dirs(I, p) is None:
            ck.ob('swap-direction', w, False, 'direction of the swap not established', 'swap-direction@' + I.kind)
            continue
        W = owner_fee_tokens(I, p)
        R = swap_result(I, p)
        mint = [m for m in moves(I, p) if m['op'] == 'mint_to']
        tot, host = C(0), C(0)
        for m in mint:
            tot = T('add', tot, m['amt'])
            if I.has('host_fee') and F.eq(m['b'], I.key('host_fee')):
                host = T('add', host, m['amt'])
        ck.ob('owner-fee-mint:total', w, N.eq(tot, W) or not mint and F.eq(rfield(I, R, 'owner_fee'), C(0)), lambda: 'minted %s, owner fee is worth %s' % (
            I.show(N.term(tot)), I.show(N.term(W))), 'owner-fee-total@' + I.kind)
        nx = T('chk_nextacct', I.acct('host_fee')) if I.has('host_fee') else None
        present = nx is not None and (F.variant(nx) in ('Ok', 'Some') or F.decide(mk_lt(T('len', I.accounts), C(len(I.names)))) is False)
        h = fld(T('call', 'Fees::host_fee', I.st('fees'), W), 0, 'Some')
        if present and not N.eq(W, C(0)) and mint:
            hs = [fld(k, 0, 'Some') for k in same_call(p, T('call', 'Fees::host_fee', I.st('fees'), W))]
            ck.ob('owner-fee-mint:host share', w, any(N.eq(host, x) for x in hs), lambda: 'host gets %s' % I.show(N.term(host)), 'host-share@' + I.kind)
            ck.ob('owner-fee-mint:host account holds pool tokens', w, any(F.eq(fld(T('unpacked', 'Account', I.data('host_fee', e), 'unpack'), SPL['mint']), I.key('pool_mint'))
                  for e in range(5)) and F.eq(fld(I.acct('host_fee'), AI['owner']), I.st('token_program_id')), 'host account not tested', 'host-mint@' + I.kind)
        else:
            ck.ob('owner-fee-mint:host share', w, N.eq(host, C(0)), lambda: 'host gets %s' % I.show(N.term(host)), 'host-share@' + I.kind)


@prop('D03')
def d03(ck):
    ck.rule('withdraw-fee', 'a withdrawal moves exactly the pool\'s withdrawal fee on the pool tokens withdrawn from the user to the fee '
            'account, before pricing (all tokens) or on top of the burn (one token); it is waived exactly when the user\'s pool account is the fee account')
    for I, p in each(ck, ['withdraw_all', 'withdraw_single']):
        F, N, w = p.facts, Norm(p.facts), where(I, p)
        x = (withdraw_all_exp if I.kind == 'withdraw_all' else withdraw_single_exp)(I, p)
        if x is None:
            ck.ob('withdraw-case', w, False, 'fee case not established', 'withdraw-case@' + I.kind)
            continue
        fee = x[1] if I.kind == 'withdraw_all' else x[4]
        paid = C(0)
        for m in moves(I, p):
            if m['op'] == 'transfer' and F.eq(m['b'], I.key('pool_fee')):
                ck.ob('withdraw-fee:payer', w, F.eq(m['a'], I.key('user_pool')), lambda: 'paid by ' + I.show(m['a']), 'fee-payer@' + I.kind)
                paid = T('add', paid, m['amt'])
        ck.ob('withdraw-fee:amount', w, N.eq(paid, fee), lambda: 'fee paid %s, expected %s' % (I.show(N.term(paid)), I.show(N.term(fee))),
              'withdraw-fee@' + I.kind)
        if I.kind == 'withdraw_all':
            ck.ob('withdraw-fee:priced after the fee', w, any(F.variant(q) == 'Some' for q in same_call(p, x[3])), lambda: 'expected ' + I.show(x[3]),
                  'fee-before-price@' + I.kind)
