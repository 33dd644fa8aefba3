"""What each property says, where it lives, and how it is decided. properties.jsonl, MANIFEST.json and the evidence headers are generated from here."""
import json, os, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = 'programs/token-bonding-curve/src/'
LIB, PROC, STATE, CONS, ERR = S + 'lib.rs', S + 'processor.rs', S + 'state.rs', S + 'constraints.rs', S + 'error.rs'
CV = S + 'curve/'
BASE, CALC, FEES = CV + 'base.rs', CV + 'calculator.rs', CV + 'fees.rs'
CP, PRICE, STABLE, OFF, LIN = (CV + n + '.rs' for n in ('constant_product', 'constant_price', 'stable', 'offset', 'linear_price'))
DFS = S + 'dfs_precise_number.rs'
TS = 'app/src/index.ts'

TRUST = ('Trusted: rustc 1.70 (the MIR it prints is the program), the path engine in /verif/tbc and its models of std, spl-token, spl-math, uint and anchor '
         'functions (listed in DESIGN.md). No bound on inputs: amounts, keys, flags and account contents are symbolic terms.')
ENGINE = ('Path-sensitive dataflow over the MIR of the type-checked crate, rebuilt from the working tree on each run: every path of the listed roots is followed with '
          'helpers inlined, terms are hash-consed, facts are equalities / orderings / variants established by the branches taken; each obligation is then decided by '
          'congruence and polynomial normal forms on the facts of its path. No input is executed and no solver is asked. ')

P = {}


def p(id, title, statement, over, qtext, why, files, mech, technique, note='', expl='', state=None, observe=None):
    P[id] = dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, technique=technique, note=note,
                 expl=expl, state=state, observe=observe)


ALLI = ['inputs', 'histories']
WHYI = ('Quantifies over every set of accounts an attacker may pass and every amount; the tests pass a few dozen account lists, each wrong in one place, through the native '
        'processor, and none of them goes through the generated entry points with arbitrary accounts.')
WHYN = 'Quantifies over all balances, amounts, supplies, rates and curve parameters; the tests evaluate a few samples (some property tests draw a few hundred).'
M_ACC = [dict(name='account validation shared by all trading instructions', where=PROC + ' check_accounts'), dict(name='pool state decoding', where=STATE)]

p('A01', 'Only the pool\'s own accounts can be traded against',
  'A trading instruction succeeds only if the pool account is owned by the program and holds an initialized pool, the authority is the address derived from that pool, '
  'and the vaults, pool mint, fee account and token program passed are the ones recorded in the pool.',
  ALLI, 'every account list and argument of swap, both deposits and both withdrawals', WHYI, [PROC, STATE, LIB], M_ACC,
  'path-sensitive must-equality (authentication) analysis on MIR')
p('A02', 'No token movement starts and ends at the same or the wrong account',
  'Each token transfer of a successful instruction has different source and destination accounts. What a user pays goes to a vault or the fee account, and what the pool pays comes from a vault of that pool.',
  ALLI, 'every account list, in particular aliased ones', WHYI, [PROC], M_ACC, 'must-inequality analysis on MIR paths')
p('A03', 'Tokens move only with the authority of their owner',
  'Tokens leave a user\'s account only under the authority the user passed, and only if that authority signed the instruction. Tokens leave a vault, and pool tokens are minted, only under the pool\'s derived authority.',
  ALLI, 'every account list, signer flag and instruction', WHYI, [PROC, LIB], M_ACC + [dict(name='signer constraints', where=LIB)], 'effect/authority analysis on MIR paths')
p('A04', 'A pool is created only from properly prepared accounts',
  'Pool creation succeeds only if both vaults belong to the derived authority, hold different mints, have no delegate and no close authority, the pool mint is empty, unfreezable and mintable only by the authority, '
  'the fee and destination accounts belong to somebody else, and the fee account holds pool tokens.',
  ALLI, 'every account list of both creation instructions', WHYI, [PROC, LIB], [dict(name='process_initialize', where=PROC)], 'must-fact analysis on MIR paths')
p('A05', 'A pool is initialized at most once and never rewritten',
  'Creation fails without any effect when the pool account already holds an initialized pool. No trading instruction writes the stored pool, so its accounts, fees and curve never change after creation.',
  ['histories', 'inputs'], 'every sequence of instructions', 'A statement about all histories; the tests try one second initialization.', [PROC, STATE],
  [dict(name='is_initialized test', where=PROC + ' process_initialize')], 'path and effect analysis on MIR',
  state=[dict(name='pool account data', meaning='version byte and recorded pool', where=STATE)])
p('A06', 'Creation records exactly the accounts, fees and curve it was given',
  'A successful creation stores the keys of the accounts passed, the mints of the vaults, the fees and the curve with the parameters of the instruction, and the bump of the derived authority, marked initialized.',
  ['inputs'], 'every argument and account list of both creation instructions', WHYI, [PROC, LIB, STATE], [dict(name='SwapV1 construction and packing', where=PROC)], 'value-flow analysis on MIR paths')
p('A07', 'Every token account or mint that is trusted belongs to the token program',
  'Whenever an instruction interprets an account\'s data as a token account or a mint and then succeeds or moves tokens, that account is owned by the pool\'s token program.',
  ['inputs'], 'every account list of every instruction', WHYI, [PROC], [dict(name='unpack_token_account / unpack_mint', where=PROC)], 'taint / must-check analysis on MIR paths')
p('B01', 'A swap moves exactly what the curve computed, and nothing else',
  'A successful swap takes exactly the computed source amount from the user into the input vault and pays exactly the computed destination amount out of the output vault, where the result is the pool curve\'s '
  'for the amount given, the current vault balances and the direction implied by the vaults. The only other effect is minting pool tokens for the owner fee.',
  ALLI, 'every swap', WHYN, [PROC, BASE], [dict(name='process_swap', where=PROC)], 'effect and value-flow analysis on MIR paths')
p('B02', 'A deposit mints exactly what the tokens paid in are priced at',
  'A successful deposit moves exactly the priced token amounts from the user into the matching vaults and mints exactly the corresponding pool tokens to the user\'s account, priced by the pool\'s curve on the current balances and supply.',
  ALLI, 'every deposit of both kinds, including into an emptied pool', WHYN, [PROC, BASE], [dict(name='process_deposit_*', where=PROC)], 'effect and value-flow analysis on MIR paths')
p('B03', 'A withdrawal burns exactly what the tokens paid out are priced at',
  'A successful withdrawal burns exactly the priced pool tokens of the user, transfers exactly the withdrawal fee, and pays exactly the priced amounts, never more than a vault holds, from the matching vaults.',
  ALLI, 'every withdrawal of both kinds', WHYN, [PROC, BASE], [dict(name='process_withdraw_*', where=PROC)], 'effect and value-flow analysis on MIR paths')
p('B04', 'Token movements use the pool\'s token program and never fail silently',
  'Every cross-program call of a successful instruction is a token instruction addressed to the pool\'s token program. Its result was checked, calls that need the pool authority are signed with exactly that pool\'s seeds, and no call is signed with other seeds.',
  ['inputs', 'fault_sequences'], 'every instruction and every failing inner call', 'The tests never make an inner call fail and cannot see a swallowed result.', [PROC], [dict(name='token_* helpers', where=PROC)], 'effect analysis on MIR paths')
p('B05', 'A new or emptied pool starts at the fixed initial supply',
  'Creating a pool mints exactly 1,000,000,000 pool tokens, and so does the first deposit into a pool whose pool tokens were all burned, whatever the curve and the amounts asked for.',
  ALLI, 'all curves, accounts, amounts and histories that empty a pool', 'The tests create pools on two curves and never deposit into an emptied one through the entry points.', [PROC, CALC], [dict(name='initial and refilled supply', where=PROC)],
  'interprocedural value-flow analysis on MIR with the curve dispatched to the implementation')
p('C01', 'A swap pays at least the minimum the user set',
  'A successful swap sends the user at least the minimum amount given in the instruction.', ['inputs'], 'every swap', WHYN, [PROC], [dict(name='slippage test', where=PROC + ' process_swap')], 'ordering facts on MIR paths')
p('C02', 'A deposit stays within the limits the user set',
  'A successful deposit takes no more of either token than the maxima given, and a one-sided deposit mints at least the minimum given.', ['inputs'], 'every deposit', WHYN, [PROC], [dict(name='slippage tests', where=PROC)], 'ordering facts on MIR paths')
p('C03', 'A withdrawal stays within the limits the user set',
  'A successful withdrawal pays at least the minima given, and the pool tokens leaving the user, fee included, are at most the maximum given.', ['inputs'], 'every withdrawal', WHYN, [PROC], [dict(name='slippage tests', where=PROC)], 'ordering facts on MIR paths')
p('C04', 'Nothing is exchanged for nothing',
  'A successful swap pays out a nonzero amount. A successful deposit or withdrawal charges and grants nonzero amounts on every side it prices, except for a side whose vault is empty.',
  ['inputs'], 'all amounts and balances small enough to round to zero', WHYN, [PROC, CALC, CP, PRICE, LIN, OFF], [dict(name='zero tests', where=PROC), dict(name='map_zero_to_none', where=CALC)], 'nonzero facts on MIR paths')
p('C05', 'A swap never takes more than the amount offered',
  'What a successful swap takes from the user, trading and owner fees included, is at most the amount the user put into the instruction, on every curve.',
  ['inputs', 'configurations'], 'all balances, amounts, fee rates and curve parameters', WHYN, [PROC, BASE, CP, PRICE, OFF, STABLE, LIN], [dict(name='swap and its pricing', where=BASE)],
  'symbolic value analysis on MIR paths; integer inequality by decomposition into defining inequalities of the roundings')
p('D01', 'Swap fees are charged on top of the priced amount',
  'A swap prices the offered amount minus trading and owner fee, charges the priced amount plus both fees, and the resulting balances are the old ones plus what is paid and minus what is given.',
  ['inputs'], 'all amounts, fees, balances and curves', WHYN, [BASE, FEES], [dict(name='SwapCurve::swap', where=BASE)], 'polynomial value-flow equality on MIR paths')
p('D02', 'The owner fee is minted exactly once and shared with the host as configured',
  'The pool tokens minted in a swap are exactly the curve\'s price of the owner fee at the balances after the swap. A host account, which must hold pool tokens, receives exactly the host share of them and the fee account the rest.',
  ALLI, 'all swaps, with and without host', WHYN, [PROC, FEES], [dict(name='owner fee minting', where=PROC + ' process_swap')], 'value-flow analysis on MIR paths')
p('D03', 'The withdrawal fee is charged on every withdrawal except the fee account\'s own',
  'A withdrawal moves exactly the configured share of the pool tokens withdrawn from the user to the fee account. It is waived exactly when the withdrawing account is the fee account itself.',
  ALLI, 'all withdrawals', WHYN, [PROC, FEES], [dict(name='withdraw fee', where=PROC)], 'value-flow analysis on MIR paths')
p('D04', 'Each fee is its own fraction of the amount, rounded down but at least one',
  'A fee is zero if its numerator or the amount is zero, and otherwise the larger of one and the amount times its own numerator over its own denominator, rounded down.',
  ['inputs'], 'all amounts and fractions', WHYN, [FEES], [dict(name='calculate_fee', where=FEES)], 'exact rational normal form of each path\'s result')
p('D05', 'No fee fraction of one or more can be configured',
  'A pool is created only if each of its four fee fractions is absent or has a numerator smaller than its denominator.', ['inputs', 'configurations'], 'all fee configurations', WHYN, [FEES, PROC], [dict(name='Fees::validate', where=FEES)], 'ordering facts on MIR paths')
p('D06', 'Production constraints bind every created pool',
  'In the production configuration a pool is created only if the fee account belongs to the configured owner, the curve is one of the listed types, each fee numerator is at least the configured one, and denominators and host share are exactly the configured ones.',
  ['configurations', 'inputs'], 'all build configurations, curve types and fees', 'The tests are built without the production feature, so none of them runs with the shipped constraints.', [CONS, PROC, LIB],
  [dict(name='SwapConstraints', where=CONS)], 'path facts on the MIR of both build variants')
p('D08', 'One-sided deposits and withdrawals pay the trading fee on the half they swap',
  'A one-sided deposit is priced on the amount minus the trading fee on half of it. A one-sided withdrawal is priced on no less than the amount that leaves the pool.',
  ['inputs'], 'all amounts and fees', WHYN, [BASE], [dict(name='deposit_single_token_type / withdraw_single_token_type_exact_out', where=BASE)], 'polynomial value-flow equality on MIR paths',
  note='One known finding: the withdrawal side is discounted by the fee instead of charged.')
p('E01', 'A stored pool is decoded to exactly what was encoded, at the published layout',
  'Encoding writes each recorded field at its published offset without gaps or overlaps, and decoding reads each field back from the same bytes.', ['inputs'], 'all pool states',
  'The tests round-trip a single state, which cannot tell apart fields with equal values or bytes never set.', [STATE], [dict(name='Pack for SwapV1', where=STATE)], 'byte-range effect analysis of encoder and decoder')
p('E02', 'Stored fees are decoded to exactly what was encoded',
  'The eight fee numbers are written little endian in the published order and read back from the same bytes.', ['inputs'], 'all fees', 'The tests round-trip one fee structure.', [FEES], [dict(name='Pack for Fees', where=FEES)], 'byte-range effect analysis of encoder and decoder')
p('E03', 'A stored curve keeps its type, its parameters and its behaviour',
  'Each curve is stored as its published type tag followed by exactly its own parameters. Decoding a tag gives that type together with the pricing rules of the same type and the parameters read from the same bytes.',
  ['inputs'], 'all curves and parameters', 'The tests round-trip one parameter choice per curve; the linear price curve is not covered with distinct parameters.', [BASE, CP, PRICE, STABLE, OFF, LIN],
  [dict(name='Pack for SwapCurve and each curve', where=BASE)], 'byte-range effect analysis of encoder and decoder')
p('E04', 'Equality, copies and defaults of pools, fees and curves are faithful',
  'Two pools, fee sets, curves, results or fixed-point numbers compare equal exactly when every field is equal; two curves compare equal exactly when their types and everything their calculators store are equal. A copy has every '
  'field of its original. A default curve is a constant product curve whose recorded type agrees with its calculator, and a default pool is not initialized.', ['inputs'], 'all pairs of values',
  'The tests only assert that equal values are equal, which a comparison that ignores fields satisfies.', [BASE, FEES, STATE, CP, PRICE, STABLE, OFF, LIN, DFS], [dict(name='PartialEq, Clone and Default implementations', where=BASE)],
  'path facts of every comparison, copy and default function of the compiled crate')
p('E05', 'Malformed pool data is never accepted',
  'Decoding succeeds only for the known version byte, an initialized flag of zero or one, a known curve tag and a record of exact length, and every trading instruction demands the initialized flag.',
  ['inputs'], 'all byte strings', 'The tests try two malformed inputs.', [STATE, BASE, PROC], [dict(name='unpack', where=STATE)], 'path facts of decoder success paths')
p('E06', 'The client library decodes pool accounts at the layout the program writes',
  'Each field of a pool account is decoded by the client library from the bytes the program writes it to, numbers least significant byte first, curve types carry the program\'s tags, and a loaded pool carries each decoded field in the property of the same meaning. Accounts of other programs and uninitialized ones are refused.', ['inputs'], 'all pool accounts',
  'No test compares the client with the program: the client tests need a running validator and are not among the ones that run.', [TS, 'app/src/layout.ts', STATE], [dict(name='TokenSwapLayout', where=TS)],
  'syntax-tree query of the client against the encoder\'s byte ranges, with an abstract evaluation of the number decoder\'s byte order')
p('F03', 'The value a curve reports is its invariant',
  'The pool value a curve reports is the square root of the product of its balances for the constant product curve, with the offset added to token B for the offset curve, half of the value in token A rounded down for the constant price curve, and the iterated invariant for the stable curve.',
  ['inputs', 'configurations'], 'all balances and curve parameters', WHYN, [CP, OFF, PRICE, STABLE], [dict(name='normalized_value', where=CALC)], 'exact rational-with-roots normal form on MIR paths',
  note='The linear price curve only reports leading digits of its value, for tests.')
p('F04', 'Constant product trades never favour the trader',
  'A constant-product swap charges at most the offered amount x and pays at most x times the destination balance over the source balance plus x, rounded down once. Pool tokens are exchanged at the proportional share, rounded against '
  'the user, one-sided at the square-root price.', ['inputs'], 'all balances, amounts and supplies', WHYN, [CP], [dict(name='swap / pool_tokens_to_trading_tokens / one-sided', where=CP)], 'exact rational normal form with rounding-direction analysis',
  note='One-sided results carry the resolution of the fixed-point square root, which is taken from the library\'s contract.')
p('F05', 'Constant price trades exchange at exactly the configured price',
  'Exactly the price in token A is exchanged per token B, never more than offered, and what cannot buy a whole token is not taken. Pool tokens are exchanged at their share of the pool value, rounded against the user.',
  ['inputs'], 'all prices, balances and amounts', WHYN, [PRICE], [dict(name='swap / conversions', where=PRICE)], 'exact rational normal form with rounding-direction analysis')
p('F06', 'The offset curve is the constant product curve with a virtual token B balance',
  'Every quantity of the offset curve is the constant-product one with the offset added to the token B balance, and only there.', ['inputs'], 'all offsets, balances and amounts', WHYN, [OFF, CP], [dict(name='delegation with offset', where=OFF)],
  'exact rational normal form with rounding-direction analysis')
p('G01', 'Curves that must not accept deposits never do',
  'A deposit of either kind succeeds only if the pool\'s curve allows deposits; the offset and the linear price curve do not, the others do. The linear price curve never prices pool tokens at all.', ['inputs', 'configurations'],
  'all pools, amounts and supplies including zero', 'The tests reject one deposit per instruction with a live supply.', [PROC, OFF, LIN, CALC], [dict(name='allows_deposits', where=CALC)], 'must-call analysis on MIR paths')
p('G02', 'Only usable curves and starting balances are admitted',
  'A pool is created only if the curve\'s price, offset, slope and denominators are nonzero, the slope is representable, and the vaults hold what the curve needs to trade. It is not refused by these tests otherwise.', ['inputs', 'configurations'],
  'all curve parameters and starting balances', WHYN, [PRICE, OFF, LIN, CALC, PROC], [dict(name='validate / validate_supply', where=CALC)], 'path facts, both directions')
p('G03', 'Linear price swaps follow the bonding curve, rounded against the trader',
  'A purchase pays out no more than the curve gives for the collateral offered, a sale no more collateral than the curve locks for the tokens returned. A sale ends at a position on the curve rounded up to a whole token. When a vault is drained the trader is charged only for what is left, and never more than offered.',
  ['inputs'], 'all slopes, prices, balances and amounts', WHYN, [LIN, DFS], [dict(name='swap_a_to_b / swap_b_to_a', where=LIN)], 'exact rational-with-roots normal form and rounding-direction analysis',
  note='Rounding below one fixed-point unit (1e-18) is not tracked. One known finding: the draining sale is rounded to nearest.')
p('H01', 'Error codes are stable and reported unchanged',
  'Each program error keeps its published number and reaches the caller as the custom error of that number.', ['programs', 'inputs'], 'all errors', 'Tests compare errors symbolically, so renumbering passes them.', [ERR], [dict(name='From<SwapError> for ProgramError', where=ERR)],
  'enum layout and conversion query')
p('H02', 'Instructions are refused only for the reason their error names',
  'Whenever an instruction is refused with one of the program\'s errors, the condition that error describes really holds for that input; any other error is the one a failed library or token call returned, handed on unchanged. So an acceptable instruction is never refused for a made-up reason.',
  ['inputs', 'configurations'], 'every account list, argument and pool state', 'The tests provoke each error once and never look for a refusal that should not be there.', [PROC, LIB, ERR, CONS], [dict(name='error returns of every instruction', where=PROC)],
  'error-path must-facts analysis on MIR paths', note='Which amounts make the curve or fee computation itself fail is decided by the curve properties, not here.')
p('J02', 'Each account of an instruction plays the role published for its position',
  'Every token movement of an instruction has at each end, and as its authority, the account the published interface puts in that position: nothing is paid to, taken from or signed by the account of another position.',
  ['inputs'], 'every account list and instruction', 'The existing tests call the processor directly, never through the program entry that hands the accounts over.', [LIB, PROC], [dict(name='instruction handlers', where=LIB)],
  'effect analysis on MIR paths from the program entry')
p('D07', 'A pool without fee rates charges nothing, and linear price pools have none',
  'In a pool whose recorded fee numerators are all zero every trade is exactly what the curve answers for the whole amount of the instruction: nothing is held back, added, minted or moved as a fee. A pool created with a linear price records zero for every fee numerator.',
  ['inputs'], 'every trade, amount, balance and curve', 'The tests trade with fees, or through the curve alone.', [PROC, BASE, FEES], [dict(name='Processor', where=PROC), dict(name='SwapCurve', where=BASE), dict(name='Fees', where=FEES)],
  'value analysis of movements on MIR paths with zero rates assumed')
p('J03', 'An instruction depends only on its data and its accounts',
  'What an instruction does is determined by the program id, its data and its accounts: no clock or sysvar, random source, environment, hidden state kept between calls, or memory address takes part in it.',
  ['inputs', 'histories'], 'all sequences of instructions', 'Tests run each instruction once, in one process and at one moment.', [LIB, PROC, BASE, DFS], [dict(name='program entry', where=LIB)],
  'effect scan over every function and call of the compiled program', note='The libraries the program links (spl-token, spl-math, anchor, solana-program) are trusted to keep no hidden state.')
p('J04', 'Clients are told which accounts change and who signs',
  'The account lists generated for clients and for calling programs name the accounts in the order the program reads them, mark an account writable exactly if the instruction can change it, and mark as signers exactly the accounts whose signature the instruction requires.',
  ['inputs'], 'every instruction and account position', 'The tests build account lists by hand and never use the generated ones.', [S + 'instructions/swap.rs', S + 'instructions/initialize.rs', LIB], [dict(name='account lists', where=S + 'instructions/')],
  'comparison of the compiled client account lists with the effects of the instruction\'s MIR paths')
p('J01', 'Instruction data runs exactly the instruction it names',
  'Data starting with the published eight-byte tag of an instruction runs that instruction with the accounts and the remaining data unchanged; other data runs none.', ['inputs'], 'all instruction data', 'No test goes through the dispatcher.', [LIB],
  [dict(name='program module', where=LIB)], 'path facts of the dispatcher')

p('F01', 'Amounts never wrap, truncate or saturate silently',
  'Arithmetic on amounts, supplies, fees and fixed-point numbers either yields the exact result or fails the computation: no operation silently wraps around, drops high bits, narrows to a smaller type or saturates.',
  ['inputs', 'configurations'], 'all amounts, balances, supplies, fees and curve parameters', 'Release builds wrap silently; the tests use amounts far from the limits.', [PROC, BASE, CALC, FEES, CP, PRICE, STABLE, OFF, LIN, DFS],
  [dict(name='checked arithmetic throughout', where=CV)], 'interval and bit-length analysis on MIR paths',
  note='Operations inside spl-math, uint and spl-token are outside the analysis (their modelled results are exact or None).')
p('F02', 'Pricing, fees, decoding and trading never abort',
  'Trading instructions, curve calculations, fee calculations, fixed-point operations and decoding of pool data return a result or an error for every input; they never panic.',
  ['inputs', 'configurations'], 'all inputs; for conversions inside spl-math, all 64-bit balances, supplies and amounts', 'The tests sample inputs; two panics were found by this analysis in code every test passes through (see known findings).',
  [PROC, BASE, CALC, FEES, CP, PRICE, STABLE, OFF, LIN, DFS, STATE], [dict(name='checked arithmetic and fallible conversions', where=DFS)], 'reachability of panics on MIR paths with interval and bit-length bounds',
  note='Excluded: creation of a pool in an account of length zero (panics, and so fails, in the encoder), and the stable curve\'s use of spl-math narrowing (needs a bound on the iterated invariant).')
p('F07', 'Stable curve trades follow the published invariant iteration',
  'The stable curve computes its invariant and the balance after a swap by Newton\'s iteration for the published invariant with leverage 2 * amp, until a fixed point or at least 32 rounds. A swap pays the balance minus that result. One-sided deposits mint floor((D1 - D0) * supply / D0) and withdrawals burn ceil((D0 - D1) * supply / D0).',
  ['inputs', 'configurations'], 'all balances, amounts, supplies and amplification factors', WHYN, [STABLE], [dict(name='compute_d, compute_new_destination_amount, one-sided pricing', where=STABLE)],
  'loop-carried value analysis and polynomial normal forms on MIR paths', note='Convergence of the iteration is not decided (F10).')
p('G05', 'Fixed-point operations compute the specified rounding',
  'Fixed-point sums and differences are exact, products and quotients are rounded to nearest, floor and ceiling are exact, and comparisons agree with the numbers represented. Operations refuse only on overflow or division by zero. The square root keeps at least 63 bits and rounds up whenever asked to and something was cut off.',
  ['inputs'], 'all 256-bit fixed-point values', 'The tests evaluate a few numbers and compare roots within a tolerance.', [DFS], [dict(name='DFSPreciseNumber', where=DFS)],
  'polynomial normal forms and loop-carried value analysis on MIR paths', note='Quotients add half a unit before dividing, so they are nearest for divisors of at least one (all divisors used). A product or quotient that overflows 256 bits before scaling falls back to scaling first.')
p('I01', 'Every instruction and computation terminates',
  'Every loop of the program makes a bounded number of rounds or strictly decreases an unsigned value each round, and no function is recursive.',
  ['inputs'], 'all inputs', 'Non-termination shows only for inputs a test does not use.', [STABLE, DFS, PROC, CONS], [dict(name='bounded iterations', where=STABLE)],
  'loop-measure (ranking) analysis on MIR and call-graph acyclicity', note='Loops inside library functions are trusted to terminate.')

p('F11', 'A swap never lowers the pool\'s invariant',
  'After a successful swap the product of the vault balances (constant product), the product of vault A and vault B plus the offset (offset), or the pool value A + price*B (constant price) is at least what '
  'it was before, for the tokens actually moved. So no sequence of swaps leaves such a pool with less of both tokens.',
  ['inputs', 'configurations'], 'all balances, amounts, limits, fee rates and curve parameters', WHYN, [PROC, BASE, CP, OFF, PRICE, FEES], [dict(name='swap, from the instruction to the token transfers', where=PROC)],
  'interprocedural symbolic value analysis on MIR; integer inequality by decomposition into defining inequalities of the roundings', note='Stable and linear price pools: see F07 and G03.',
  expl='The swap instruction is followed end to end with the pool\'s curve dispatched to the implementation, so fees, pricing, conversions and transfers are seen together.')
p('F12', 'Deposits and withdrawals never dilute the other holders',
  'A successful deposit or withdrawal of both tokens leaves at least as much of each vault behind every pool token as before (constant product, stable, offset) or at least as much pool value A + price*B '
  '(constant price). One-sided deposits into constant price pools keep the value per pool token as well.',
  ['inputs', 'configurations'], 'all balances, supplies, amounts, limits, fee rates and curve parameters, with pool tokens outstanding', WHYN, [PROC, BASE, CALC, CP, OFF, PRICE, STABLE],
  [dict(name='deposits and withdrawals, from the instruction to the token movements', where=PROC)],
  'interprocedural symbolic value analysis on MIR; integer inequality by decomposition into defining inequalities of the roundings',
  note='One-sided trades on curves priced through square roots are covered for rounding direction by F05 only; one-sided withdrawals are the known finding of D08.')
p('G04', 'Liquidity of a linear price pool changes only through swaps',
  'No deposit or withdrawal instruction, of one token or both, succeeds on a pool with a linear price curve.',
  ['inputs', 'histories'], 'all accounts, amounts and pool states', 'The tests call the curve\'s own refusal; whether every instruction reaches a refusal on every path is not tested.', [PROC, BASE, LIN], [dict(name='deposit and withdrawal instructions', where=PROC)],
  'interprocedural path-sensitive reachability on MIR with the curve dispatched to the implementation')
p('K02', 'The program runs at its published address',
  'The address compiled into the program is the one it is configured to be deployed at on every cluster and the one published with it.',
  ['configurations'], 'all clusters', 'The tests use the compiled-in address on both sides.', [LIB, 'Anchor.toml', 'programs/token-bonding-curve/program-id.md'], [dict(name='declared program address', where=LIB)],
  'constant extraction from MIR compared with the workspace configuration')

NA = []


def na(id, title, statement, over, qtext, why, files, mech, reason):
    p(id, title, statement, over, qtext, why, files, mech, '')
    NA.append((id, reason))


na('F08', 'Swaps never take both tokens out of a stable or linear price pool', 'No sequence of swaps leaves a stable or linear price pool with less of both tokens than before.', ['histories', 'inputs'], 'all sequences of swaps',
   WHYN, [STABLE, LIN], [dict(name='rounding against the user', where=CALC)],
   'The pool invariant of these two curves is known only through Newton iterations and fixed-point roots of runtime values; formula and rounding direction are decided (F07, G03), the inequality between their results is not. For the other three curves it follows from F11.')
na('F09', 'One-sided trades never lower the value per pool token on root-priced curves', 'No one-sided deposit or withdrawal on a constant product, offset or stable pool lowers the pool\'s invariant per pool token.', ['histories', 'inputs'], 'all sequences of trades', WHYN, [CP, STABLE, OFF],
   [dict(name='one-sided pricing', where=CALC)], 'Compares products of runtime balances with results of an iterated fixed-point square root whose error is not bounded by any domain used here (and one-sided withdrawals are the known finding of D08). Formula and rounding direction are decided (F04-F07); two-sided trades and constant price pools by F12.')
na('F10', 'The stable curve\'s iterations converge to the invariant', 'The invariant and the swap result computed by iteration agree with the exact solution to within one unit for every balance and amplification.', ['inputs'],
   'all balances and amplification factors', WHYN, [STABLE], [dict(name='compute_d / compute_new_destination_amount', where=STABLE)],
   'Convergence within the fixed iteration count depends on runtime magnitudes; only the iteration step, its exit condition and its bound are decided (F07, I01).')
na('G06', 'Fixed-point square roots are accurate to the last digit', 'The square root of every representable number differs from the exact root by less than one unit in the last place for large and small arguments alike.', ['inputs'],
   'all fixed-point numbers', WHYN, [DFS], [dict(name='sqrt_u64', where=DFS)], 'A numeric error bound over 256-bit values and 64-bit truncation; only the algebraic shape of the computation and its rounding flag are decided (G05).')
na('K01', 'The client library builds instructions the program accepts', 'Every instruction built by the client library names the accounts and encodes the arguments as the program expects.', ['inputs'], 'all client calls',
   'Needs a running validator.', [TS], [dict(name='createInitSwapInstruction and others', where=TS)],
   'The client still builds the numbered instructions of the program this one was forked from, which the current dispatcher rejects; there is no correct behaviour on this tree to protect, only the account layout is shared (E06).')


def evidence(ck, cov, new, tier):
    m = P.get(ck.pid, {})
    cov['explanation'] = ENGINE + (m.get('expl') or '') + ' Rules applied: ' + '; '.join('%s: %s' % kv for kv in sorted(ck.rules.items()))
    return {'property': ck.pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other', 'coverage': cov,
            'assumptions': [TRUST] + ([m['note']] if m.get('note') else []),
            'wall_s': round(time.time() - ck.t0, 2), 'violations': len(new)}


def generate():
    from .props import PROPS
    nas = dict(NA)
    with open(os.path.join(VERIF, 'properties.jsonl'), 'w') as f:
        for id in sorted(P):
            m = P[id]
            if id not in PROPS and id not in nas:
                print('no check for', id)
            an = {'files': m['files'], 'mechanism': m['mech']}
            if m['state']:
                an['state'] = m['state']
            if m['observe']:
                an['observe_at'] = m['observe']
            f.write(json.dumps({'id': id, 'title': m['title'], 'statement': m['statement'], 'quantifier': {'over': m['over'], 'text': m['qtext']},
                                'why_tests_cant': m['why'], 'anchors': an}) + '\n')
    man = {'version': 1, 'setup_cmd': 'python3 -m tbc.build default production', 'checks': [], 'not_applicable': [{'property': i, 'reason': r} for i, r in NA],
           'notes': 'One static analysis engine (tbc/) over the MIR of the current working tree; no hooks in /repo. Known findings: known_findings.json.'}
    for id in sorted(PROPS):
        if id not in P:
            print('no metadata for', id)
            continue
        man['checks'].append({'property': id, 'quick_cmd': 'python3 -m tbc.check %s' % id, 'thorough_cmd': 'python3 -m tbc.check %s --thorough' % id,
                              'technique': 'static analysis: ' + P[id]['technique'], 'level': 'other',
                              'level_note': 'Sound for all inputs on the analysed program up to the trusted base. ' + TRUST + ' ' + P[id]['note']})
    json.dump(man, open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
    for m in P.values():
        assert len(m['title']) <= 80, m['title']


if __name__ == '__main__':
    generate()
