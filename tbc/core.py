"""Shared machinery of the checks: analysed program, path roots, obligations, reports, evidence."""
import json, os, re, sys, time, hashlib
sys.setrecursionlimit(20000)
from . import build
from .mir import Program, parse_body, canon_call
from .terms import *
from .interp import Interp, Path
from .norm import Norm

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('TBC_REPO', '/repo')

OPAQUE = ['SwapCurve::swap', 'SwapCurve::withdraw_single_token_type_exact_out', 'SwapCurve::deposit_single_token_type',
          'Fees::owner_withdraw_fee', 'Fees::host_fee']

# account positions on the wire (the order clients must use)
ACCTS = {
    'swap': ['pool_state', 'authority', 'user_authority', 'user_source', 'vault_in', 'vault_out', 'user_dest',
             'pool_mint', 'pool_fee', 'token_program'],
    'initialize': ['pool_state', 'authority', 'token_a', 'token_b', 'pool_mint', 'pool_fee', 'pool_dest', 'token_program'],
    'deposit_all': ['pool_state', 'authority', 'user_authority', 'user_a', 'user_b', 'vault_a', 'vault_b', 'pool_mint',
                    'user_pool', 'token_program'],
    'deposit_single': ['pool_state', 'authority', 'user_authority', 'user_source', 'vault_a', 'vault_b', 'pool_mint',
                       'user_pool', 'token_program'],
    'withdraw_all': ['pool_state', 'authority', 'user_authority', 'pool_mint', 'user_pool', 'vault_a', 'vault_b', 'user_a',
                     'user_b', 'pool_fee', 'token_program'],
    'withdraw_single': ['pool_state', 'authority', 'user_authority', 'pool_mint', 'user_pool', 'vault_a', 'vault_b',
                        'user_dest', 'pool_fee', 'token_program'],
}
ACCTS['swap_host'] = ACCTS['swap'] + ['host_fee']
ENTRY = {
    'swap': '__global::swap', 'deposit_all': '__global::deposit_all_token_types',
    'deposit_single': '__global::deposit_single_token_type_exact_amount_in',
    'withdraw_all': '__global::withdraw_all_token_types',
    'withdraw_single': '__global::withdraw_single_token_type_exact_amount_out',
    'init_price': '__global::initialize_constant_price', 'init_linear': '__global::initialize_linear_price',
}
ARGS = {
    'swap': ['amount_in', 'minimum_amount_out'],
    'deposit_all': ['pool_token_amount', 'maximum_token_a_amount', 'maximum_token_b_amount'],
    'withdraw_all': ['pool_token_amount', 'minimum_token_a_amount', 'minimum_token_b_amount'],
    'deposit_single': ['source_token_amount', 'minimum_pool_token_amount'],
    'withdraw_single': ['destination_token_amount', 'maximum_pool_token_amount'],
}
ARGSTRUCT = {
    'swap': 'Swap', 'deposit_all': 'DepositAllTokenTypes', 'withdraw_all': 'WithdrawAllTokenTypes',
    'deposit_single': 'DepositSingleTokenTypeExactAmountIn',
    'withdraw_single': 'WithdrawSingleTokenTypeExactAmountOut',
    'init_price': 'InitializeConstantPrice', 'init_linear': 'InitializeLinearPrice',
}
AI = {'key': 0, 'is_signer': 1, 'is_writable': 2, 'lamports': 3, 'data': 4, 'owner': 5}
SPL = {'mint': 0, 'owner': 1, 'amount': 2, 'delegate': 3, 'state': 4, 'is_native': 5, 'delegated_amount': 6,
       'close_authority': 7}
MINT = {'mint_authority': 0, 'supply': 1, 'decimals': 2, 'is_initialized': 3, 'freeze_authority': 4}
TRADE_INSTR = ['swap', 'deposit_all', 'deposit_single', 'withdraw_all', 'withdraw_single']
INIT_INSTR = ['init_price', 'init_linear']
ANY_INIT = INIT_INSTR + ['init_any']       # init_any: Processor::process_initialize with any fees, curve and constraints


class Anchor(Exception):
    """a construct the rules are anchored at does not exist any more"""


def param_names(f):
    parse_body(f)
    inv = {}
    for k, v in f.debug.items():
        inv.setdefault(v, k)
    return [inv.get('_%d' % a, '_%d' % a) for a in f.args]


def succ(p):
    if p.kind != 'ret' or p.val is None:
        return False
    if p.val.op == 'agg':
        return p.val.args[1] not in ('Err', 'None')
    return not (p.val.op == 'sym' and p.facts.variant(p.val) in ('Err', 'None'))


class Root:
    def __init__(self, name, fn, paths, it, args):
        self.name, self.fn, self.paths, self.it, self.args = name, fn, paths, it, args
        self.ok = [p for p in paths if succ(p)]
        self.bad = [p for p in paths if p.kind == 'ret' and not succ(p)]
        self.aborts = [p for p in paths if p.kind == 'abort']

    def arg(self, i):
        return self.args[i]


class Instr(Root):
    """one entry point; accounts and arguments by role"""
    kind = None

    def __init__(self, kind, prog, root, accounts, names, argf):
        self.__dict__.update(root.__dict__)
        self.kind, self.prog, self.accounts, self.names, self.argf = kind, prog, accounts, names, argf

    def acct(self, role):
        return idx(self.accounts, self.names.index(role))

    def has(self, role):
        return role in self.names

    def key(self, role):
        return fld(self.acct(role), AI['key'])

    def data(self, role, ep=0):
        return T('data', self.acct(role), ep)

    @property
    def state(self):
        return T('unpacked', 'SwapV1', view(self.data('pool_state'), 1, None), 'unpack')

    def st(self, field):
        return fld(self.state, self.prog.fidx('SwapV1', field))

    def tok(self, role, field):
        return fld(T('unpacked', 'Account', self.data(role), 'unpack'), SPL[field])

    def mint(self, role, field):
        return fld(T('unpacked', 'Mint', self.data(role), 'unpack'), MINT[field])

    def a(self, name):
        return self.argf(name)

    def show(self, t):
        s = pp(t) if isinstance(t, T) else str(t)
        s = s.replace(pp(self.state), 'state')
        for i, n in enumerate(self.names):
            s = s.replace('%s[%d]' % (pp(self.accounts), i), n)
        s = re.sub(r'unpacked\((Account|Mint), data\((\w+), (\d+)\), unpack\)', lambda m: '%s(%s)' % (m.group(1).lower(), m.group(2)), s)
        return s


class Ck:
    def __init__(self, pid, thorough=False):
        self.pid, self.thorough = pid, thorough
        self.t0 = time.time()
        self.progs, self.how = {}, {}
        self.cache = {}
        self.force = None        # build variant analysed in place of the default one
        self.obs = []            # (rule, where, ok, detail)
        self.viol = {}           # key -> (rule, where, detail)
        self.samples = {}
        self.counts = {}
        self.fns = set()
        self.npaths = 0
        self.nsucc = 0
        self.notes = []
        self.rootstats = {}
        self.rules = {}

    # ---- program
    def prog(self, variant='default'):
        variant = self.force or variant
        if variant not in self.progs:
            text, how = build.mir(variant)
            self.progs[variant] = Program(text, REPO)
            self.how[variant] = how
        return self.progs[variant]

    def has(self, name, variant='default'):
        try:
            return self.prog(variant).fn(name) is not None
        except Exception:
            return False

    def root(self, name, opaque=OPAQUE, args=None, facts=None, variant='default', mem=(), tag='', curve=None):
        variant = self.force or variant
        k = (name, tuple(str(o) for o in opaque), variant, tag, tuple(args) if args else None, curve)
        if k in self.cache:
            return self.cache[k]
        P = self.prog(variant)
        try:
            f = P.fn(name)
        except Exception:
            f = None
        if f is None:
            raise Anchor('function %s not found in the compiled program' % name)
        it = Interp(P, list(opaque))
        it.curve = curve
        a = [T('param', n) for n in param_names(f)] if args is None else list(args)
        ps = it.run(f, a, facts=facts, mem=mem)
        r = Root(name, f, ps, it, a)
        self.npaths += len(ps)
        self.nsucc += len(r.ok)
        self.fns |= set(it.inlined) | {f.canon}
        self.rootstats[name + ('' if variant == 'default' else '@' + variant) + tag + ('' if curve is None else '+' + curve)] = {
            'paths': len(ps), 'success': len(r.ok), 'error': len(r.bad), 'abort': len(r.aborts), 'steps': it.steps}
        self.cache[k] = r
        return r

    def instr(self, kind, variant='default'):
        """swap / deposit_* / withdraw_* / init_* through the generated entry, 'swap_host' through process_swap"""
        variant = self.force or variant
        P = self.prog(variant)
        if kind == 'swap_host':
            r = self.root('Processor::process_swap', variant=variant)
            n = param_names(r.fn)
            acc = r.args[n.index('accounts')] if 'accounts' in n else r.args[-1]
            d = dict(zip(n, r.args))
            i = Instr(kind, P, r, acc, ACCTS['swap_host'],
                      lambda x: d.get(x) if x in d else r.args[1 + ARGS['swap'].index(x)])
            i.pid = r.args[0]
            return i
        if kind == 'init_any':
            r = self.root('Processor::process_initialize', variant=variant)
            n = param_names(r.fn)
            d = dict(zip(['program_id', 'fees', 'swap_curve', 'accounts', 'swap_constraints'], r.args))
            d.update(zip(n, r.args))
            i = Instr(kind, P, r, d['accounts'], ACCTS['initialize'], d.__getitem__)
            i.pid = r.args[0]
            return i
        r = self.root(ENTRY[kind], variant=variant)
        names = ACCTS['initialize' if kind.startswith('init') else kind]
        an = ARGSTRUCT[kind]
        i = Instr(kind, P, r, r.args[1], names,
                  lambda x: fld(T('ixarg', an), ARGS[kind].index(x) if isinstance(x, str) else x))
        i.pid = r.args[0]
        return i

    # ---- obligations
    def ob(self, rule, where, ok, detail='', key=None):
        """one obligation; `where` names function / path kind, `key` identifies a violation"""
        if self.force:
            where = '%s [%s build]' % (where, self.force)
        self.obs.append(bool(ok))
        c = self.counts.setdefault(rule, [0, 0])
        c[0] += 1
        c[1] += bool(ok)
        if len(self.samples.setdefault(rule, [])) < 3 and ok:
            self.samples[rule].append(where)
        if not ok:
            k = key or '%s@%s' % (rule, where)
            self.viol.setdefault(k, (rule, where, detail if not callable(detail) else detail()))
        return bool(ok)

    def rule(self, name, text):
        self.rules[name] = text

    def need(self, n, what, key=None):
        """vacuity guard: the analysis must have found something to decide about"""
        if self.force and 'init_linear' in what:
            return      # the published production constraints admit no linear price pool (D06)
        self.ob('non-vacuous', what, n > 0, 'nothing to analyse: %s' % what, key or 'vacuous:' + what)

    def finish(self, meta):
        known = {}
        kf = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(kf):
            for e in json.load(open(kf)):
                if e['status'] == 'open' and e['property'] == self.pid:
                    known[e['key']] = e
        new = {k: v for k, v in self.viol.items() if k not in known}
        work = os.path.join(VERIF, '.work', 'replay')
        os.makedirs(work, exist_ok=True)
        out = []
        for k, v in sorted(self.viol.items()):
            if k in known:
                print('KNOWN-FINDING: property=%s %s' % (self.pid, known[k]['what']))
        rp = None
        if new:
            rp = os.path.join(work, '%s.json' % self.pid)
            json.dump({'property': self.pid, 'violations': [
                {'key': k, 'rule': v[0], 'construct': v[1], 'detail': v[2]} for k, v in sorted(new.items())],
                'how_to_replay': 'cd /verif && python3 -m tbc.check %s' % self.pid}, open(rp, 'w'), indent=1)
            for k, v in sorted(new.items())[:20]:
                print('  %s\n    at %s\n    %s' % (v[0], v[1], v[2][:600]))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
        self.evidence(meta, new, [k for k in self.viol if k in known])
        return 1 if new else 0

    def evidence(self, meta, new, known):
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        n, g = len(self.obs), sum(self.obs)
        distinct = sum(len(s) for s in self.samples.values())
        cov = {
            'unit': 'proof obligations (one per rule, root and analysed path)',
            'obligations': n, 'discharged': g, 'violated': len(new), 'known_findings': known,
            'roots': self.rootstats, 'paths_analysed': self.npaths, 'success_paths': self.nsucc,
            'functions_inlined': sorted(self.fns)[:400], 'functions_count': len(self.fns),
            'per_rule': {k: {'obligations': v[0], 'discharged': v[1], 'examples': self.samples.get(k, [])}
                         for k, v in sorted(self.counts.items())},
            'rules': self.rules,
            'mir': self.how,
            'explanation': meta.get('explanation', ''),
        }
        ev = meta['evidence'](self, cov, new)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1, sort_keys=True)
