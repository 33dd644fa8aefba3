// Shared demonstration harness: the real program driven through its entry point, with the real token program behind the inner calls.
extern crate solana_program;
extern crate spl_token;
extern crate token_bonding_curve as tbc;
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, instruction::Instruction, program_error::ProgramError,
    program_option::COption, program_pack::Pack, program_stubs, pubkey::Pubkey};
use std::{cell::RefCell, collections::BTreeMap, rc::Rc};
pub use tbc::curve::{base::{CurveType, SwapCurve}, fees::Fees, calculator::{CurveCalculator, RoundDirection, TradeDirection},
    constant_price::ConstantPriceCurve, constant_product::ConstantProductCurve, linear_price::LinearPriceCurve, offset::OffsetCurve, stable::StableCurve};
pub use tbc::dfs_precise_number::DFSPreciseNumber;
pub use tbc::processor::Processor;
use tbc::state::{SwapState, SwapVersion};

struct Stubs;
impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        if !infos.iter().any(|x| *x.key == ix.program_id) { return Err(ProgramError::InvalidAccountData); }
        if ix.program_id != spl_token::id() { return Ok(()); }
        let mut v = vec![];
        for m in ix.accounts.iter() {
            let mut a = infos.iter().find(|x| *x.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?.clone();
            for s in seeds.iter() {
                if let Ok(k) = Pubkey::create_program_address(s, &tbc::ID) { if k == *a.key { a.is_signer = true; } }
            }
            v.push(a);
        }
        // accounts the program may not touch keep their data: the token program's ownership test
        let before: Vec<Vec<u8>> = v.iter().map(|a| a.data.borrow().to_vec()).collect();
        let r = spl_token::processor::Processor::process(&ix.program_id, &v, &ix.data);
        for (a, b) in v.iter().zip(before) {
            if *a.owner != spl_token::id() && a.data.borrow().to_vec() != b { a.data.borrow_mut().copy_from_slice(&b); return Err(ProgramError::IllegalOwner); }
        }
        r
    }
}

#[derive(Clone)]
pub struct Acc { pub data: Vec<u8>, pub owner: Pubkey, pub writable: bool }

#[derive(Clone)]
pub struct W {
    pub acc: BTreeMap<Pubkey, Acc>,
    pub pool: Pubkey, pub auth: Pubkey, pub bump: u8, pub va: Pubkey, pub vb: Pubkey, pub mint: Pubkey, pub fee: Pubkey, pub dest: Pubkey,
    pub ma: Pubkey, pub mb: Pubkey, pub user: Pubkey, pub ua: Pubkey, pub ub: Pubkey, pub ul: Pubkey, pub owner: Pubkey, pub n: u8,
}

pub fn key(n: u8) -> Pubkey { Pubkey::new_from_array([n; 32]) }

pub const NOFEES: Fees = Fees { trade_fee_numerator: 0, trade_fee_denominator: 1, owner_trade_fee_numerator: 0, owner_trade_fee_denominator: 1,
    owner_withdraw_fee_numerator: 0, owner_withdraw_fee_denominator: 1, host_fee_numerator: 0, host_fee_denominator: 1 };
pub fn price(p: u64) -> SwapCurve { SwapCurve { curve_type: CurveType::ConstantPrice, calculator: Box::new(ConstantPriceCurve { token_b_price: p }) } }
pub fn product() -> SwapCurve { SwapCurve { curve_type: CurveType::ConstantProduct, calculator: Box::new(ConstantProductCurve {}) } }
pub fn offset(o: u64) -> SwapCurve { SwapCurve { curve_type: CurveType::Offset, calculator: Box::new(OffsetCurve { token_b_offset: o }) } }
pub fn stable(a: u64) -> SwapCurve { SwapCurve { curve_type: CurveType::Stable, calculator: Box::new(StableCurve { amp: a }) } }
pub fn linear(a: u64, b: u64, c: u64, d: u64) -> SwapCurve {
    SwapCurve { curve_type: CurveType::LinearPrice, calculator: Box::new(lin(a, b, c, d)) }
}
pub fn lin(a: u64, b: u64, c: u64, d: u64) -> LinearPriceCurve {
    LinearPriceCurve { slope_numerator: a, slope_denominator: b, initial_token_a_price_numerator: c, initial_token_a_price_denominator: d }
}

impl W {
    pub fn token(&mut self, k: Pubkey, mint: Pubkey, owner: Pubkey, amount: u64) -> Pubkey {
        let mut d = vec![0; spl_token::state::Account::LEN];
        spl_token::state::Account { mint, owner, amount, delegate: COption::None, state: spl_token::state::AccountState::Initialized,
            is_native: COption::None, delegated_amount: 0, close_authority: COption::None }.pack_into_slice(&mut d);
        self.acc.insert(k, Acc { data: d, owner: spl_token::id(), writable: true });
        k
    }
    pub fn new_mint(&mut self, k: Pubkey, authority: Pubkey, supply: u64) -> Pubkey {
        let mut d = vec![0; spl_token::state::Mint::LEN];
        spl_token::state::Mint { mint_authority: COption::Some(authority), supply, decimals: 2, is_initialized: true, freeze_authority: COption::None }.pack_into_slice(&mut d);
        self.acc.insert(k, Acc { data: d, owner: spl_token::id(), writable: true });
        k
    }
    pub fn edit(&mut self, k: Pubkey, f: impl FnOnce(&mut spl_token::state::Account)) {
        let a = self.acc.get_mut(&k).unwrap();
        let mut t = spl_token::state::Account::unpack(&a.data).unwrap();
        f(&mut t);
        t.pack_into_slice(&mut a.data);
    }
    pub fn edit_mint(&mut self, k: Pubkey, f: impl FnOnce(&mut spl_token::state::Mint)) {
        let a = self.acc.get_mut(&k).unwrap();
        let mut t = spl_token::state::Mint::unpack(&a.data).unwrap();
        f(&mut t);
        t.pack_into_slice(&mut a.data);
    }
    /// accounts of a pool that is not initialized yet; the user's tokens are plenty
    pub fn blank(a: u64, b: u64, seed: u8) -> W {
        program_stubs::set_syscall_stubs(Box::new(Stubs));
        let pool = key(seed);
        let (auth, bump) = Pubkey::find_program_address(&[&pool.to_bytes()[..]], &tbc::ID);
        let k = |i: u8| key(seed.wrapping_add(i));
        let mut w = W { acc: BTreeMap::new(), pool, auth, bump, va: k(1), vb: k(2), mint: k(3), fee: k(4), dest: k(5), ma: k(6), mb: k(7), user: k(8), ua: k(9),
            ub: k(10), ul: k(11), owner: k(12), n: seed.wrapping_add(20) };
        w.acc.insert(pool, Acc { data: vec![0; SwapVersion::LATEST_LEN], owner: tbc::ID, writable: true });
        w.acc.insert(auth, Acc { data: vec![], owner: key(0), writable: false });
        w.acc.insert(w.user, Acc { data: vec![], owner: key(0), writable: false });
        w.acc.insert(spl_token::id(), Acc { data: vec![], owner: key(0), writable: false });
        w.new_mint(w.ma, k(13), 1 << 62); w.new_mint(w.mb, k(13), 1 << 62); w.new_mint(w.mint, auth, 0);
        w.token(w.va, w.ma, auth, a); w.token(w.vb, w.mb, auth, b);
        w.token(w.fee, w.mint, w.owner, 0); w.token(w.dest, w.mint, w.owner, 0);
        w.token(w.ua, w.ma, w.user, 1 << 60); w.token(w.ub, w.mb, w.user, 1 << 60); w.token(w.ul, w.mint, w.user, 0);
        w
    }
    /// a pool created by the program's own creation routine
    pub fn pool(curve: SwapCurve, fees: Fees, a: u64, b: u64) -> W {
        let mut w = W::blank(a, b, 30);
        w.create(curve, fees).unwrap();
        w
    }
    pub fn create(&mut self, curve: SwapCurve, fees: Fees) -> Result<(), ProgramError> {
        let m = self.init_accounts();
        self.with(&m, |a| Processor::process_initialize(&tbc::ID, fees, curve, a, &None))
    }
    pub fn init_accounts(&self) -> Vec<(Pubkey, bool)> {
        vec![(self.pool, true), (self.auth, false), (self.va, false), (self.vb, false), (self.mint, false), (self.fee, false), (self.dest, false), (spl_token::id(), false)]
    }
    pub fn t(&self, k: Pubkey) -> u64 { spl_token::state::Account::unpack(&self.acc[&k].data).unwrap().amount }
    pub fn supply(&self) -> u64 { spl_token::state::Mint::unpack(&self.acc[&self.mint].data).unwrap().supply }
    pub fn give_pool_tokens(&mut self, n: u64) {
        let (ul, mint) = (self.ul, self.mint);
        self.edit(ul, |t| t.amount += n);
        self.edit_mint(mint, |m| m.supply += n);
    }
    /// run f on account views; failed (or aborted) calls leave no trace, as on chain
    pub fn with(&mut self, metas: &[(Pubkey, bool)], f: impl FnOnce(&[AccountInfo<'static>]) -> ProgramResult) -> Result<(), ProgramError> {
        let mut infos: Vec<AccountInfo<'static>> = vec![];
        for (k, s) in metas {
            if let Some(i) = infos.iter().find(|i| i.key == k).cloned() { let mut i = i; i.is_signer = *s; infos.push(i); continue; }
            let a = self.acc.get(k).unwrap();
            let kk: &'static Pubkey = Box::leak(Box::new(*k));
            let d: &'static mut [u8] = Box::leak(a.data.clone().into_boxed_slice());
            let l: &'static mut u64 = Box::leak(Box::new(1_000_000_000));
            let o: &'static Pubkey = Box::leak(Box::new(a.owner));
            infos.push(AccountInfo { key: kk, is_signer: *s, is_writable: a.writable, lamports: Rc::new(RefCell::new(l)), data: Rc::new(RefCell::new(d)), owner: o, executable: *k == spl_token::id(), rent_epoch: 0 });
        }
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&infos))).unwrap_or(Err(ProgramError::Custom(0xdead)));
        if r.is_ok() {
            for i in infos.iter() { self.acc.get_mut(i.key).unwrap().data = i.data.borrow().to_vec(); }
        }
        r
    }
    /// an instruction through the entry point, by discriminator
    pub fn entry(&mut self, tag: [u8; 8], args: &[u64], metas: &[(Pubkey, bool)]) -> Result<(), ProgramError> {
        let mut d = tag.to_vec();
        for a in args { d.extend_from_slice(&a.to_le_bytes()); }
        self.with(metas, |a| tbc::entry(&tbc::ID, a, &d))
    }
    pub fn sides(&self, a_to_b: bool) -> (Pubkey, Pubkey, Pubkey, Pubkey) {
        if a_to_b { (self.ua, self.va, self.vb, self.ub) } else { (self.ub, self.vb, self.va, self.ua) }
    }
    pub fn swap_metas(&self, a_to_b: bool) -> Vec<(Pubkey, bool)> {
        let (s, i, o, d) = self.sides(a_to_b);
        vec![(self.pool, false), (self.auth, false), (self.user, true), (s, false), (i, false), (o, false), (d, false), (self.mint, false), (self.fee, false), (spl_token::id(), false)]
    }
    pub fn swap(&mut self, a_to_b: bool, x: u64, min: u64) -> Result<(), ProgramError> { let m = self.swap_metas(a_to_b); self.entry(SWAP, &[x, min], &m) }
    pub fn swap_host(&mut self, a_to_b: bool, x: u64, min: u64, host: Pubkey) -> Result<(), ProgramError> {
        let mut m = self.swap_metas(a_to_b); m.push((host, false));
        self.with(&m, |a| Processor::process_swap(&tbc::ID, x, min, a))
    }
    pub fn dep_metas(&self) -> Vec<(Pubkey, bool)> {
        vec![(self.pool, false), (self.auth, false), (self.user, true), (self.ua, false), (self.ub, false), (self.va, false), (self.vb, false), (self.mint, false), (self.ul, false), (spl_token::id(), false)]
    }
    pub fn deposit(&mut self, lp: u64, ma: u64, mb: u64) -> Result<(), ProgramError> { let m = self.dep_metas(); self.entry(DEPOSIT_ALL, &[lp, ma, mb], &m) }
    pub fn dep1_metas(&self, a: bool) -> Vec<(Pubkey, bool)> {
        vec![(self.pool, false), (self.auth, false), (self.user, true), (if a { self.ua } else { self.ub }, false), (self.va, false), (self.vb, false), (self.mint, false), (self.ul, false), (spl_token::id(), false)]
    }
    pub fn deposit1(&mut self, a: bool, x: u64, min: u64) -> Result<(), ProgramError> { let m = self.dep1_metas(a); self.entry(DEPOSIT_ONE, &[x, min], &m) }
    pub fn wd_metas(&self) -> Vec<(Pubkey, bool)> {
        vec![(self.pool, false), (self.auth, false), (self.user, true), (self.mint, false), (self.ul, false), (self.va, false), (self.vb, false), (self.ua, false), (self.ub, false), (self.fee, false), (spl_token::id(), false)]
    }
    pub fn withdraw(&mut self, lp: u64, ma: u64, mb: u64) -> Result<(), ProgramError> { let m = self.wd_metas(); self.entry(WITHDRAW_ALL, &[lp, ma, mb], &m) }
    pub fn wd1_metas(&self, a: bool) -> Vec<(Pubkey, bool)> {
        vec![(self.pool, false), (self.auth, false), (self.user, true), (self.mint, false), (self.ul, false), (self.va, false), (self.vb, false), (if a { self.ua } else { self.ub }, false), (self.fee, false), (spl_token::id(), false)]
    }
    pub fn withdraw1(&mut self, a: bool, x: u64, max: u64) -> Result<(), ProgramError> { let m = self.wd1_metas(a); self.entry(WITHDRAW_ONE, &[x, max], &m) }
}
pub const SWAP: [u8; 8] = [248, 198, 158, 145, 225, 117, 135, 200];
pub const DEPOSIT_ALL: [u8; 8] = [32, 95, 69, 60, 75, 79, 205, 238];
pub const DEPOSIT_ONE: [u8; 8] = [99, 207, 4, 42, 88, 157, 45, 55];
pub const WITHDRAW_ALL: [u8; 8] = [189, 254, 156, 174, 210, 9, 164, 216];
pub const WITHDRAW_ONE: [u8; 8] = [243, 192, 70, 139, 209, 156, 8, 139];
pub const INIT_PRICE: [u8; 8] = [125, 94, 220, 25, 84, 243, 56, 187];
pub const INIT_LINEAR: [u8; 8] = [216, 58, 55, 98, 142, 240, 233, 224];
pub fn check(what: &str, ok: bool) {
    println!("{} {}", if ok { "ok  " } else { "FAIL" }, what);
    if !ok { std::process::exit(1); }
}
