"""Instructions followed end to end with the pool's curve known (families F11, F12, G04) and the program's address (K02)."""
import os, re
from .instr import *
from .instr import each, where, calc_of, side, supply_case
from ..ineq import Ineq, padd, pmul

PRODUCT, PRICE, OFFSET, STABLE, LINEAR = 'ConstantProductCurve', 'ConstantPriceCurve', 'OffsetCurve', 'StableCurve', 'LinearPriceCurve'


def known(ck, kind, curve):
    """the instruction and its paths when the pool's curve is the given one, pricing and fees included"""
    I = ck.instr(kind)
    return I, ck.root(ENTRY[kind], opaque=[], curve=curve, variant=ck.force or 'default')


def param(ck, I, curve, f):
    return fld(calc_of(I), I.prog.fidx(curve, f))


def into(I, p, Q, key):
    """net amount moved into a token account"""
    r = {}
    for m in moves(I, p):
        if m['op'] in ('transfer', 'mint_to', 'burn', '?'):
            if m['op'] == '?':
                return None
            if m['op'] != 'burn' and p.facts.eq(m['b'], key):
                r = padd(r, Q.p(m['amt']))
            if m['op'] == 'transfer' and p.facts.eq(m['a'], key):
                r = padd(r, Q.p(m['amt']), -1)
    return r


def minted(I, p, Q):
    r = {}
    for m in moves(I, p):
        if m['op'] == 'mint_to' and p.facts.eq(m['a'], I.key('pool_mint')):
            r = padd(r, Q.p(m['amt']))
        if m['op'] == 'burn' and p.facts.eq(m['b'], I.key('pool_mint')):
            r = padd(r, Q.p(m['amt']), -1)
    return r


def shown(I, Q, e):
    from ..norm import ATOMS
    return ' + '.join('%d*%s' % (c, '*'.join(I.show(ATOMS[i])[:90] for i in m) or '1') for m, c in sorted(e.items()))


@prop('F11')
def f11(ck):
    ck.rule('invariant-kept', 'on every success path of a swap through a pool of the curve, with the amounts of the issued transfers: A*B (constant product), '
            'A*(B+offset) (offset), A+price*B (constant price) after the swap is at least what it was before, as an integer inequality')
    for c, par in ((PRODUCT, None), (OFFSET, 'token_b_offset'), (PRICE, 'token_b_price')):
        I, r = known(ck, 'swap', c)
        ck.need(len(r.ok), 'success paths of a swap through a %s pool' % c)
        seen = {}
        for p in r.ok:
            d = dirs(I, p)
            w = '%s %s %s' % (where(I, p), c, d)
            key = 'invariant:%s@%s' % (c, d)
            if d is None:
                ck.ob('invariant-kept', w, False, 'direction of the swap not established', key)
                continue
            Q = Ineq(Norm(p.facts))
            vi, vo = Q.p(I.tok('vault_in', 'amount')), Q.p(I.tok('vault_out', 'amount'))
            di, do = into(I, p, Q, I.key('vault_in')), into(I, p, Q, I.key('vault_out'))
            if di is None or do is None:
                ck.ob('invariant-kept', w, False, 'a token movement of unknown kind is issued', key)
                continue
            a, b, da, db = (vi, vo, di, do) if d == 'AtoB' else (vo, vi, do, di)
            x = Q.p(param(ck, I, c, par)) if par else {}
            if c == PRICE:
                e = padd(da, pmul(x, db))
            else:
                b = padd(b, x)
                e = padd(pmul(padd(a, da), padd(b, db)), pmul(a, b), -1)
            ck.ob('invariant-kept', w, Q.nonneg(e), lambda: 'not established: 0 <= %s' % shown(I, Q, e)[:600], key)


@prop('F12')
def f12(ck):
    ck.rule('no-dilution', 'on every success path of a deposit or two-sided withdrawal with pool tokens outstanding, with the amounts of the issued token movements: '
            '(V + dV) * supply >= V * (supply + minted - burned), where V is each vault\'s balance (constant product, stable), vault A and vault B plus the offset '
            '(offset), or A+price*B (constant price, one-sided deposits included)')
    for c, par, kinds in ((PRODUCT, None, ('deposit_all', 'withdraw_all')), (STABLE, None, ('deposit_all', 'withdraw_all')),
                          (OFFSET, 'token_b_offset', ('withdraw_all',)), (PRICE, 'token_b_price', ('deposit_all', 'deposit_single', 'withdraw_all'))):
        for k in kinds:
            I, r = known(ck, k, c)
            n = 0
            for p in r.ok:
                dep = k.startswith('deposit')
                if dep and supply_case(I, p) == 'empty':
                    continue
                n += 1
                Q = Ineq(Norm(p.facts))
                for m in moves(I, p):
                    if m['op'] == 'burn':
                        Q.name(Q.p(m['amt']))
                for m in moves(I, p):
                    if 'amt' in m:
                        Q.facts.append(Q.p(m['amt']))
                S = Q.p(I.mint('pool_mint', 'supply'))
                A, B = Q.p(I.tok('vault_a', 'amount')), Q.p(I.tok('vault_b', 'amount'))
                dA, dB, dS = into(I, p, Q, I.key('vault_a')), into(I, p, Q, I.key('vault_b')), minted(I, p, Q)
                w = '%s %s' % (where(I, p), c)
                if dA is None or dB is None:
                    ck.ob('no-dilution', w, False, 'a token movement of unknown kind is issued', 'dilution:%s:%s' % (c, k))
                    continue
                x = Q.p(param(ck, I, c, par)) if par else {}
                if c == PRICE:
                    goals = [('A+price*B', padd(A, pmul(x, B)), padd(dA, pmul(x, dB)))]
                else:
                    goals = [('vault A', A, dA), ('vault B' + (' plus offset' if x else ''), padd(B, x), dB)]
                for nm, V, dV in goals:
                    e = padd(pmul(dV, S), pmul(V, dS), -1)
                    ck.ob('no-dilution', '%s: %s' % (w, nm), Q.nonneg(e), lambda: '%s per pool token not established to hold: 0 <= %s' % (nm, shown(I, Q, e)[:600]),
                          'dilution:%s:%s' % (c, k))
            ck.need(n, 'success paths of %s on a %s pool' % (k, c))


@prop('G04')
def g04(ck):
    ck.rule('liquidity-only-by-swaps', 'with the pool\'s curve a linear price curve, no path of a deposit or withdrawal instruction succeeds')
    for k in ('deposit_all', 'deposit_single', 'withdraw_all', 'withdraw_single'):
        I, r = known(ck, k, LINEAR)
        ck.need(len(r.paths), 'paths of %s on a linear price pool' % k)
        for p in r.paths:
            if p.kind == 'ret':
                good = p not in r.ok
                ck.ob('liquidity-only-by-swaps', where(I, p), good, lambda: 'succeeds on a linear price pool; ' + tail(p), 'linear-liquidity@' + k)


B58 = '123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz'


def base58(b):
    n, s = int.from_bytes(b, 'big'), ''
    while n:
        n, r = divmod(n, 58)
        s = B58[r] + s
    return '1' * (len(b) - len(b.lstrip(b'\0'))) + s


@prop('K02')
def k02(ck):
    from .. import build
    from ..build import REPO
    ck.rule('declared-address', 'the program address compiled into the program is the one the workspace configuration deploys to on each cluster and the one published '
            'beside the program')
    text = build.mir(ck.force or 'default')[0]
    m = re.search(r'^static ID: [\w:]*Pubkey = \{\n(.*?)^\}', text, re.S | re.M)
    if not m:
        raise Anchor('the declared program address was not found in the compiled program')
    b = bytes(int(x) for x in re.findall(r'const (\d+)_u8', m.group(1)))
    ck.need(len(b) == 32, 'bytes of the declared address')
    have = base58(b)
    toml = open(os.path.join(REPO, 'Anchor.toml')).read()
    n = 0
    for sec, body in re.findall(r'^\[programs\.(\w+)\]\s*\n((?:[^\[\n].*\n|\s*\n)*)', toml, re.M):
        for a in re.findall(r'^\s*token_bonding_curve\s*=\s*"(\w+)"', body, re.M):
            n += 1
            ck.ob('declared-address', 'Anchor.toml programs.' + sec, a == have, 'compiled in: %s, deployed to: %s' % (have, a), 'address@' + sec)
    ck.need(n, 'addresses in Anchor.toml')
    a = open(os.path.join(REPO, 'programs/token-bonding-curve/program-id.md')).read().strip()
    ck.ob('declared-address', 'program-id.md', a == have, 'compiled in: %s, published: %s' % (have, a), 'address@published')


@prop('C05')
def c05(ck):
    from .curves import DFS
    from .rules import method
    ck.rule('priced-within-offer', 'each curve\'s swap charges at most the amount it is offered, on every path with a result')
    ck.rule('paid-within-offer', 'on every success path of a swap the user pays at most the instruction\'s amount, fees included, given the curve charges at most what it '
            'is offered')
    P = ck.prog(ck.force or 'default')
    for c in CURVES:
        r = method(ck, c, 'swap_without_fees', DFS)
        n = 0
        for p in r.paths:
            if p.kind != 'ret' or p.facts.variant(p.val) == 'None' or p.val.op == 'agg' and p.val.args[1] == 'None':
                continue
            n += 1
            Q = Ineq(Norm(p.facts))
            s = fld(fld(p.val, 0, 'Some'), P.fidx('SwapWithoutFeesResult', 'source_amount_swapped'))
            e = padd(Q.p(r.args[1]), Q.p(s), -1)
            ck.ob('priced-within-offer', c, Q.nonneg(e), lambda: 'charges %s of an offered source amount' % pp(s)[:400], 'priced@' + c)
        ck.need(n, 'results of a swap on the %s' % c)
    I = ck.instr('swap')
    r = ck.root(ENTRY['swap'], opaque=[], variant=ck.force or 'default')
    ck.need(len(r.ok), 'success paths of a swap')
    for p in r.ok:
        Q = Ineq(Norm(p.facts))
        for k, v in p.facts.var.items():
            if v == 'Some' and k.op == 'call' and k.args[0] == CALC + 'swap_without_fees':
                Q.facts.append(padd(Q.p(k.args[2]), Q.p(fld(fld(k, 0, 'Some'), I.prog.fidx('SwapWithoutFeesResult', 'source_amount_swapped'))), -1))
        pay = into(I, p, Q, I.key('vault_in'))
        ck.ob('paid-within-offer', where(I, p), pay is not None and Q.nonneg(padd(Q.p(I.a('amount_in')), pay, -1)),
              lambda: 'pays %s' % (pay and shown(I, Q, pay)[:400]), 'paid@swap')


@prop('B05')
def b05(ck):
    ck.rule('initial-supply', 'each creation of a pool, and each success path of a deposit into a pool without pool tokens outstanding, on every curve that takes deposits, '
            'mints exactly 1,000,000,000 pool tokens')
    want = C(10 ** 9)

    def one(I, p, w, key):
        N = Norm(p.facts)
        ms = [m for m in moves(I, p) if m['op'] == 'mint_to' and p.facts.eq(m['a'], I.key('pool_mint'))]
        ck.ob('initial-supply', w, len(ms) == 1 and N.eq(ms[0]['amt'], want), lambda: 'mints %s' % [I.show(N.term(m['amt']))[:200] for m in ms], key)
    for k in INIT_INSTR:
        I = ck.instr(k)
        ck.need(len(I.ok), 'success paths of ' + k)
        for p in I.ok:
            one(I, p, I.kind, 'initial@' + k)
    I = ck.instr('init_any')
    for c in CURVES:
        r = ck.root('Processor::process_initialize', curve=c, tag='supply', variant=ck.force or 'default')
        ck.need(len(r.ok), 'success paths of process_initialize on %s' % c)
        for p in r.ok:
            one(I, p, 'process_initialize ' + c, 'initial:%s@any' % c)
    n = 0
    for c in CURVES:
        for k in ('deposit_all', 'deposit_single'):
            I, r = known(ck, k, c) if k == 'deposit_all' or c == PRICE else single(ck, k, c)
            for p in r.ok:
                sc = supply_case(I, p)
                if sc == 'empty':
                    n += 1
                    one(I, p, '%s %s' % (where(I, p), c), 'refill:%s@%s' % (c, k))
                elif sc is None:
                    ck.ob('initial-supply', '%s %s' % (where(I, p), c), False, 'path does not distinguish an empty from a live pool', 'refill-case:%s@%s' % (c, k))
    ck.need(n, 'deposits into an emptied pool')


def single(ck, kind, curve):
    """one-sided deposit with the curve known; the pricing of a live pool left open"""
    I = ck.instr(kind)
    return I, ck.root(ENTRY[kind], opaque=['SwapCurve::deposit_single_token_type'], curve=curve, variant=ck.force or 'default')
