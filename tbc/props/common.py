from ..core import *

PROPS = {}
CALC = '<dyn CurveCalculator as CurveCalculator>::'
CURVES = ['ConstantPriceCurve', 'ConstantProductCurve', 'LinearPriceCurve', 'OffsetCurve', 'StableCurve']


def prop(pid, thorough=False):
    def d(f):
        PROPS[pid] = f
        return f
    return d


def moves(I, p):
    out = []
    for e in p.effects:
        if e[0] == 'cpi':
            ix, infos, seeds, span, key, facts = e[1:7]
            if ix.op == 'ix':
                n, prog, a, b, auth, signers, amt = ix.args
                out.append(dict(op=n, prog=prog, a=a, b=b, auth=auth, amt=amt, seeds=seeds, span=span, key=key, facts=facts,
                                ix=ix, signers=signers, infos=infos))
            else:
                out.append(dict(op='?', ix=ix, seeds=seeds, span=span, key=key, facts=facts))
    return out


def at(span):
    """file:line of a construct, for humans only (never part of a violation's key)"""
    try:
        return '%s:%s' % (span[0], span[1])
    except Exception:
        return '?'


def pathname(I, p):
    """name of a success path by what it does, independent of code layout"""
    ms = [m['op'] for m in moves(I, p)]
    d = ''
    for t in p.facts.literals():
        s = t[0]
    return '%s[%s]' % (I.kind, '+'.join(ms) or '-')


def pda_of(I, p):
    """the authority address facts of the path pin down, and the seeds that derive it"""
    want = I.key('authority')
    F = p.facts
    for t, tr in F.literals():
        if tr and t.op == 'eq':
            for x in t.args:
                if x.op == 'pda' and F.eq(x, want):
                    return x
    return None


def pool_pda(I):
    """authority of the pool: address derived from the pool account's key and the recorded bump"""
    seeds = agg('array', None, T('bytes', I.key('pool_state')), agg('array', None, I.st('bump_seed')))
    return T('pda', seeds, I.pid)


def dirs(I, p):
    """('AtoB'|'BtoA'|None) direction the path facts establish for a swap"""
    F = p.facts
    if F.eq(I.key('vault_in'), I.st('token_a')) and F.eq(I.key('vault_out'), I.st('token_b')):
        return 'AtoB'
    if F.eq(I.key('vault_in'), I.st('token_b')) and F.eq(I.key('vault_out'), I.st('token_a')):
        return 'BtoA'
    return None


def direction(v):
    return agg('TradeDirection', v)


def ropt(t, *path):
    """payload of Option term then fields"""
    t = fld(t, 0, 'Some')
    for i in path:
        t = fld(t, i)
    return t


def calls(t, name):
    return [x for x in walk(t) if x.op == 'call' and x.args[0] == name]


def find_role(I, F, key, roles=None):
    out = []
    for r in roles or I.names:
        k = I.key(r)
        if k is key or F.eq(k, key):
            out.append(r)
    return out
