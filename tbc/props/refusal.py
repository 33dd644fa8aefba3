"""Why an instruction is refused (family H): each error path of each instruction establishes the condition its error code names."""
from .instr import *
from .instr import each, where
from .rules import ERRORS, PRODFEES, method
from .curves import CURVES

INITS = ['init_price', 'init_linear']
PRICING = ('SwapCurve::swap', 'SwapCurve::deposit_single_token_type', 'SwapCurve::withdraw_single_token_type_exact_out', CALC + 'pool_tokens_to_trading_tokens')
FEECALL = ('Fees::owner_withdraw_fee', 'Fees::host_fee')
# limit argument -> (kind of limit, movements it bounds: operation and the role at the user's end)
LIMITS = {
    'swap': {'minimum_amount_out': ('min', [('transfer', 'b', 'user_dest')])},
    'deposit_all': {'maximum_token_a_amount': ('max', [('transfer', 'a', 'user_a')]), 'maximum_token_b_amount': ('max', [('transfer', 'a', 'user_b')])},
    'withdraw_all': {'minimum_token_a_amount': ('min', [('transfer', 'b', 'user_a')]), 'minimum_token_b_amount': ('min', [('transfer', 'b', 'user_b')])},
    'deposit_single': {'minimum_pool_token_amount': ('min', [('mint_to', 'b', 'user_pool')])},
    'withdraw_single': {'maximum_pool_token_amount': ('max', [('burn', 'a', 'user_pool'), ('transfer', 'a', 'user_pool')])},
}
MUT = {'initialize': {'pool_state', 'pool_mint', 'pool_dest'}}


def amounts(I):
    """(operation, end, role) -> amounts moved on the success paths"""
    out = {}
    for p in I.ok:
        for m in moves(I, p):
            for end in 'ab':
                if m.get(end) is not None:
                    for r in find_role(I, p.facts, m[end]):
                        out.setdefault((m['op'], end, r), set()).add(m['amt'])
    return out


class Why:
    def __init__(self, I, P):
        self.I, self.P = I, P
        self.kind = 'swap' if I.kind == 'swap_host' else I.kind
        self.init = I.kind in INITS
        self.am = amounts(I)
        self.users = [r for r in I.names if r.startswith('user_') and r != 'user_authority']

    def moved(self, F, x, specs):
        """x is (the sum of) the amounts moved"""
        vals = [v for s in specs[:1] for v in self.am.get(s, ())]
        N = Norm(F)
        if any(x is v or F.eq(x, v) or N.eq(x, v) for v in vals):
            return True
        if len(specs) > 1:
            for v in vals:
                for z in self.am.get(specs[1], ()):
                    if N.eq(x, binop('add', v, z)):
                        return True
        return False

    def fee_above(self, F):
        """a fee was found greater than the amount it is taken from"""
        for t, tr in F.literals():
            if t.op == 'lt' and tr:
                fee, amt = t.args[1], t.args[0]
                if fee.op == 'f' or fee.op == 'fld':
                    fee = fee.args[0]
                if fee.op == 'call' and fee.args[0] in FEECALL and F.eq(fee.args[2], amt):
                    return True
        return False

    def none(self, F, names):
        return any(v == 'None' and k.op == 'call' and k.args[0] in names for k, v in F.var.items())

    def failing(self, F, pre):
        return any(v in ('None', 'Err') and k.op.startswith(pre) for k, v in F.var.items())

    def reason(self, code, F):
        I = self.I
        key, acct = I.key, I.acct
        own = lambda r: fld(acct(r), AI['owner'])
        some = lambda t: F.variant(t) == 'Some'
        tp = key('token_program') if self.init else I.st('token_program_id')
        tok = lambda r, f: I.tok(r, f)
        has = I.has
        err = lambda pre: any(v == 'Err' and k.op == 'call' and k.args[0] == pre for k, v in F.var.items())
        if code == 'AlreadyInUse':
            return self.init and F.variant(T('call', 'SwapV1::unpack', view(I.data('pool_state'), 1, None))) == 'Ok' and F.decide(I.st('is_initialized')) is True
        if code == 'InvalidProgramAddress':
            if self.init:
                return any(x.op == 'fpda' and F.ne(x, key('authority')) and x.args[0] is agg('array', None, T('bytes', key('pool_state')))
                           for t, tr in F.literals() for x in walk(t))
            a = pool_pda(I)
            return F.variant(a) == 'Err' or F.ne(a, key('authority'))
        if code == 'IncorrectSwapAccount':
            A, B = I.st('token_a'), I.st('token_b')
            if has('vault_in'):
                return any(F.ne(key(r), A) and F.ne(key(r), B) for r in ('vault_in', 'vault_out'))
            if F.ne(key('vault_a'), A) or F.ne(key('vault_b'), B):
                return True
            return any(F.ne(tok(r, 'mint'), tok('vault_a', 'mint')) and F.ne(tok(r, 'mint'), tok('vault_b', 'mint')) for r in ('user_source', 'user_dest') if has(r))
        if code == 'IncorrectPoolMint':
            if self.init:
                return F.ne(key('pool_mint'), tok('pool_fee', 'mint'))
            return F.ne(key('pool_mint'), I.st('pool_mint')) or has('host_fee') and \
                any(F.ne(key('pool_mint'), fld(T('unpacked', 'Account', I.data('host_fee', e), 'unpack'), SPL['mint'])) for e in range(4))
        if code == 'IncorrectFeeAccount':
            return has('pool_fee') and not self.init and F.ne(key('pool_fee'), I.st('pool_fee_account'))
        if code == 'IncorrectTokenProgramId':
            if not self.init and F.ne(key('token_program'), tp):
                return True
            return any(F.ne(own(r), tp) for r in I.names if r not in ('pool_state', 'authority', 'user_authority', 'token_program'))
        if code == 'InvalidInput':
            if has('vault_in') and (F.eq(key('vault_in'), key('vault_out')) or F.eq(key('vault_in'), key('user_source')) or F.eq(key('vault_out'), key('user_dest'))):
                return True
            if has('vault_in') or self.init:
                return False
            return any(F.eq(key(u), key(v)) for u, v in (('user_a', 'vault_a'), ('user_b', 'vault_b')) if has(u)) or \
                any(F.eq(key(u), key(v)) for u in ('user_source', 'user_dest') if has(u) for v in ('vault_a', 'vault_b'))
        if code == 'ExpectedMint':
            return err('Mint::unpack')
        if code == 'ExpectedAccount':
            return err('Account::unpack')
        if code == 'ExceededSlippage':
            for name, (kind, specs) in LIMITS.get(self.kind, {}).items():
                lim = I.a(name)
                for lo, hi in F.lts:
                    x, l = (lo, hi) if kind == 'min' else (hi, lo)
                    if (l is lim or F.eq(l, lim)) and self.moved(F, x, specs):
                        return True
            return False
        if code == 'ZeroTradingTokens':
            if self.none(F, PRICING):
                return True
            for name, (kind, specs) in LIMITS.get(self.kind, {}).items():
                if self.kind == 'swap':
                    continue
                for s in specs[:1]:
                    for v in self.am.get(s, ()):
                        if F.eq(v, C(0)):
                            if self.kind != 'withdraw_all':
                                return True
                            side = 'vault_a' if name.endswith('a_amount') else 'vault_b'
                            if F.ne(tok(side, 'amount'), C(0)):
                                return True
            return False
        if code == 'FeeCalculationFailure':
            return self.none(F, FEECALL + (PRICING[2:3] if self.kind == 'swap' else ())) or self.kind == 'swap' and (self.failing(F, 'chk_sub') or self.fee_above(F))
        if code == 'CalculationFailure':
            return self.failing(F, 'chk_') or self.fee_above(F)
        if code == 'ConversionFailure':
            return any(v == 'Err' and k.op == 'conv' for k, v in F.var.items()) or \
                any(tr and t.op == 'lt' and t.args[0].op == 'c' and t.args[0].args[0] >= 2 ** 64 - 1 or
                    not tr and t.op == 'lt' and t.args[1].op == 'c' and t.args[1].args[0] >= 2 ** 64 for t, tr in F.literals())
        if code == 'UnsupportedCurveOperation':
            return I.kind.startswith('deposit') and any(not tr and t.op == 'call' and t.args[0] == CALC + 'allows_deposits' for t, tr in F.literals())
        if not self.init:
            return False
        au = key('authority')
        if code == 'InvalidOwner':
            return F.ne(au, tok('token_a', 'owner')) or F.ne(au, tok('token_b', 'owner')) or F.ne(agg('COption', 'Some', au), I.mint('pool_mint', 'mint_authority')) \
                or self.variant == 'production' and any(('parse' in pp(t) or 'owner_key' in pp(t)) for t, _ in F.literals()[-2:]) \
                or self.variant == 'production' and any(F.ne(tok('pool_fee', 'owner'), y) for a, b in F.neq for y in (a, b))
        if code == 'InvalidOutputOwner':
            return F.eq(au, tok('pool_dest', 'owner')) or F.eq(au, tok('pool_fee', 'owner'))
        if code == 'RepeatedMint':
            return F.eq(tok('token_a', 'mint'), tok('token_b', 'mint'))
        if code == 'EmptySupply':
            return any(F.eq(tok(r, 'amount'), C(0)) for r in ('token_a', 'token_b'))
        if code == 'InvalidSupply':
            return F.ne(I.mint('pool_mint', 'supply'), C(0)) or I.kind == 'init_linear' and F.ne(tok('token_a', 'amount'), C(0))
        if code == 'InvalidDelegate':
            return some(tok('token_a', 'delegate')) or some(tok('token_b', 'delegate'))
        if code == 'InvalidCloseAuthority':
            return some(tok('token_a', 'close_authority')) or some(tok('token_b', 'close_authority'))
        if code == 'InvalidFreezeAuthority':
            return some(I.mint('pool_mint', 'freeze_authority'))
        if code == 'InvalidFee':
            if I.kind == 'init_linear':
                return self.variant == 'production'
            for i in range(0, 8, 2):
                n, d = I.a(i), I.a(i + 1)
                if F.ge(n, d) and (F.ne(n, C(0)) or F.ne(d, C(0))):
                    return True
            # the configured fees: least numerators, exact denominators, exact host share
            return self.variant == 'production' and any(
                F.decide(T('lt', I.a(i), C(n))) is True if i in (0, 2, 4) else F.ne(I.a(i), C(n)) for i, n in enumerate(PRODFEES))
        if code == 'UnsupportedCurveType':
            return self.variant == 'production' and I.kind == 'init_linear'
        if code == 'InvalidCurve':
            if I.kind == 'init_price':
                return F.eq(I.a(8), C(0))
            # the exact set of refused parameters is decided by G02; here the refusal must depend on the parameters
            ps = {I.a(i) for i in range(4)}
            return any(any(x in ps for x in walk(t)) for t, _ in F.literals()[-2:])
        return False

    def passed_on(self, v, F):
        """Err of a failed call, handed on unchanged"""
        if not (v.op == 'agg' and v.args[1] == 'Err'):
            return v.op in ('call', 'sym') and F.variant(v) == 'Err' or v.op in ('spl_token', 'cpi')
        e = v.args[2]
        while e.op in ('sym',):
            e = e.args[2] if e.args[2] is not None else e.args[1]
        return e.op == 'fld' and e.args[2] == 'Err' and F.variant(e.args[0]) == 'Err'

    def other(self, v, F):
        """framework and decoding errors"""
        I = self.I
        s = pp(v)
        if 'ConstraintMut' in s or 'ConstraintSigner' in s:
            must = MUT['initialize'] if self.init else {r for r in I.names if r not in ('pool_state', 'authority', 'user_authority', 'token_program')}
            if 'ConstraintMut' in s:
                return any(F.decide(fld(I.acct(r), AI['is_writable'])) is False for r in must)
            return F.decide(fld(I.acct('pool_state' if self.init else 'user_authority'), AI['is_signer'])) is False
        if 'InstructionDidNotDeserialize' in s:
            return any(k.op == 'call' and k.args[0] == 'deserialize' and x == 'Err' for k, x in F.var.items())
        if 'NotEnoughAccountKeys' in s:
            return self.failing(F, 'chk_nextacct')
        if s.endswith('IncorrectProgramId())'):
            return not self.init and F.ne(fld(I.acct('pool_state'), AI['owner']), I.pid)
        if s.endswith('InvalidAccountData())'):
            return self.failing(F, 'chk_nonempty') or F.eq(T('len', I.data('pool_state')), C(0))
        if s.endswith('UninitializedAccount())'):
            return F.ne(idx(I.data('pool_state'), 0), C(1))
        return self.passed_on(v, F)


@prop('H02')
def h02(ck):
    ck.rule('refusal', 'on each error path of each instruction the path facts establish the condition the returned error names, or the error is the one a failed '
            'call returned, handed on unchanged')
    for variant, kinds in (('default', ALLTRADE + INITS), ('production', INITS)):
        for k in kinds:
            I = ck.instr(k, variant=variant)
            W = Why(I, ck.prog(variant))
            W.variant = variant
            ck.need(len(I.bad), 'error paths of %s' % k)
            for p in I.bad:
                v, F = p.val, p.facts
                code = None
                if v.op == 'agg' and v.args[1] == 'Err' and len(v.args) > 2 and v.args[2].op == 'agg' and v.args[2].args[0] == 'Custom' \
                        and v.args[2].args[2].op == 'c':
                    code = v.args[2].args[2].args[0]
                if code is not None:
                    name = ERRORS[code] if 0 <= code < len(ERRORS) else None
                    ok = name is not None and bool(W.reason(name, F))
                    label = name or 'code %d' % code
                else:
                    ok = bool(W.other(v, F))
                    label = pp(v)[:60]
                ck.ob('refusal', '%s%s refused with %s' % (k, '' if variant == 'default' else ' (production)', label), ok,
                      lambda: 'no path fact establishes what the error names; ' + tail(p, 4), 'refusal:%s@%s' % (label if code is not None else v.args[2].op if isagg(v) else v.op, k))
    ck.rule('curve-refusal', 'each curve refuses parameters as InvalidCurve and starting balances as EmptySupply for a balance that is missing, InvalidSupply for one that must not be there')
    for c in CURVES:
        for m in ('validate', 'validate_supply'):
            r = method(ck, c, m)
            for p in r.bad:
                F, v = p.facts, p.val
                e = v.args[2].args[1] if v.op == 'agg' and len(v.args) > 2 and v.args[2].op == 'agg' else None
                if m == 'validate':
                    ok = e == 'InvalidCurve'
                else:
                    a, b = (F.eq(r.arg(i), C(0)) for i in (1, 2))
                    ok = e == 'EmptySupply' and (a and c != 'LinearPriceCurve' or b and c not in ('ConstantPriceCurve', 'OffsetCurve')) \
                        or e == 'InvalidSupply' and c == 'LinearPriceCurve' and F.ne(r.arg(1), C(0))
                ck.ob('curve-refusal', '%s %s' % (c, m), ok, lambda: 'refused with %s under %s' % (pp(v), tail(p, 3)), 'curve-refusal:%s.%s' % (c, m))
