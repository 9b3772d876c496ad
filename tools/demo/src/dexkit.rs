//! A small in-process stand-in for the chain: accounts, one market, traders, and the spl-token
//! processor behind cross-program calls.
#![allow(dead_code)]
use serum_dex::instruction::*;
use serum_dex::matching::{OrderType, Side};
use solana_program::{
    account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult, instruction::Instruction,
    program_error::ProgramError, program_pack::Pack, program_stubs, pubkey::Pubkey, rent::Rent, system_program,
};
use std::cell::RefCell;
use std::num::NonZeroU64;
use std::panic::{catch_unwind, AssertUnwindSafe};

thread_local! { static CALLER: RefCell<Pubkey> = RefCell::new(Pubkey::default()); static NOW: RefCell<i64> = RefCell::new(1000); }
struct Stubs;
impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let c = Clock { unix_timestamp: NOW.with(|n| *n.borrow()), ..Clock::default() };
        unsafe { std::ptr::write_unaligned(p as *mut Clock, c) };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { std::ptr::write_unaligned(p as *mut Rent, Rent::default()) };
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let caller = CALLER.with(|c| *c.borrow());
        let signed: Vec<Pubkey> = seeds.iter().filter_map(|s| Pubkey::create_program_address(s, &caller).ok()).collect();
        let mut v = vec![];
        for m in &ix.accounts {
            let i = infos.iter().find(|i| *i.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
            let mut c = i.clone();
            if m.is_signer && !c.is_signer && !signed.contains(c.key) {
                return Err(ProgramError::MissingRequiredSignature);
            }
            c.is_signer = m.is_signer;
            v.push(c);
        }
        if ix.program_id != spl_token::ID {
            return Err(ProgramError::IncorrectProgramId);
        }
        spl_token::processor::Processor::process(&ix.program_id, &v, &ix.data)
    }
}

#[derive(Clone)]
pub struct Acc {
    pub key: Pubkey,
    pub owner: Pubkey,
    pub lam: u64,
    pub data: Vec<u64>,
    pub len: usize,
}
impl Acc {
    pub fn bytes(&self) -> &[u8] {
        unsafe { std::slice::from_raw_parts(self.data.as_ptr() as *const u8, self.len) }
    }
    pub fn bytes_mut(&mut self) -> &mut [u8] {
        unsafe { std::slice::from_raw_parts_mut(self.data.as_mut_ptr() as *mut u8, self.len) }
    }
}
pub fn key(n: u64) -> Pubkey {
    let mut b = [7u8; 32];
    b[..8].copy_from_slice(&n.to_le_bytes());
    Pubkey::new(&b)
}
pub type I = usize;
#[derive(Clone)]
pub struct User {
    pub owner: I,
    pub oo: I,
    pub coin: I,
    pub pc: I,
    pub srm: I,
}
#[derive(Clone)]
pub struct Opt {
    pub coin_lot: u64,
    pub pc_lot: u64,
    pub users: usize,
    pub slab: usize,
    pub events: usize,
    pub srm: u64,
    pub auth: usize,
}
impl Default for Opt {
    fn default() -> Self {
        Opt { coin_lot: 10, pc_lot: 100, users: 3, slab: 400, events: 256, srm: 0, auth: 0 }
    }
}
#[derive(Clone)]
pub struct W {
    pub a: Vec<Acc>,
    pub prog: Pubkey,
    pub nonce: u64,
    pub market: I, pub req_q: I, pub event_q: I, pub bids: I, pub asks: I,
    pub coin_vault: I, pub pc_vault: I, pub coin_mint: I, pub pc_mint: I, pub vault_signer: I,
    pub token: I, pub rent: I, pub referrer: I, pub sweeper: I, pub sweep_to: I, pub disabler: I, pub dest: I,
    pub oo_auth: I, pub prune_auth: I, pub crank_auth: I,
    pub u: Vec<User>,
    pub o: Opt,
}
pub fn now(t: i64) {
    NOW.with(|n| *n.borrow_mut() = t)
}
pub fn nz(x: u64) -> NonZeroU64 {
    NonZeroU64::new(x).unwrap()
}
pub fn order(side: Side, price: u64, qty: u64, pc: u64) -> NewOrderInstructionV3 {
    NewOrderInstructionV3 {
        side,
        limit_price: nz(price),
        max_coin_qty: nz(qty),
        max_native_pc_qty_including_fees: nz(pc),
        self_trade_behavior: SelfTradeBehavior::DecrementTake,
        order_type: OrderType::Limit,
        client_order_id: 0,
        limit: 10,
        max_ts: i64::MAX,
    }
}
impl W {
    pub fn add(&mut self, owner: Pubkey, k: Pubkey, len: usize) -> I {
        self.a.push(Acc { key: k, owner, lam: 100_000_000_000, data: vec![0; (len + 7) / 8], len });
        self.a.len() - 1
    }
    pub fn token(&mut self, k: Pubkey, mint: I, owner: &Pubkey, bal: u64) -> I {
        let m = self.a[mint].key;
        let i = self.add(spl_token::ID, k, 165);
        let mut t = spl_token::state::Account::default();
        t.mint = m;
        t.owner = *owner;
        t.amount = bal;
        t.state = spl_token::state::AccountState::Initialized;
        spl_token::state::Account::pack(t, self.a[i].bytes_mut()).unwrap();
        i
    }
    pub fn mint(&mut self, k: Pubkey) -> I {
        let i = self.add(spl_token::ID, k, spl_token::state::Mint::LEN);
        let mut m = spl_token::state::Mint::default();
        m.is_initialized = true;
        spl_token::state::Mint::pack(m, self.a[i].bytes_mut()).unwrap();
        i
    }
    pub fn new(o: Opt) -> W {
        program_stubs::set_syscall_stubs(Box::new(Stubs));
        std::panic::set_hook(Box::new(|_| ()));
        let prog = key(4242);
        let mut w = W {
            a: vec![], prog, nonce: 0, market: 0, req_q: 0, event_q: 0, bids: 0, asks: 0, coin_vault: 0, pc_vault: 0, coin_mint: 0, pc_mint: 0,
            vault_signer: 0, token: 0, rent: 0, referrer: 0, sweeper: 0, sweep_to: 0, disabler: 0, dest: 0, oo_auth: 0, prune_auth: 0, crank_auth: 0,
            u: vec![], o: o.clone(),
        };
        let sys = system_program::ID;
        w.token = w.add(sys, spl_token::ID, 0);
        w.rent = w.add(sys, solana_program::sysvar::rent::ID, 17);
        w.coin_mint = w.mint(key(1));
        w.pc_mint = w.mint(key(2));
        let srm = w.mint(srm_token::ID);
        w.market = w.add(prog, key(10), if o.auth > 0 { 1464 } else { 376 } + 12);
        w.req_q = w.add(prog, key(11), 12 + 32 + 80);
        w.event_q = w.add(prog, key(12), 12 + 32 + 88 * o.events);
        w.bids = w.add(prog, key(13), 12 + 40 + 72 * o.slab);
        w.asks = w.add(prog, key(14), 12 + 40 + 72 * o.slab);
        let mk = w.a[w.market].key;
        let (n, vs) = (0u64..200).find_map(|n| Pubkey::create_program_address(&[mk.as_ref(), &n.to_le_bytes()], &prog).ok().map(|k| (n, k))).unwrap();
        w.nonce = n;
        w.vault_signer = w.add(sys, vs, 0);
        let (cm, pm) = (w.coin_mint, w.pc_mint);
        w.coin_vault = w.token(key(15), cm, &vs, 0);
        w.pc_vault = w.token(key(16), pm, &vs, 0);
        w.oo_auth = w.add(sys, key(17), 0);
        w.prune_auth = w.add(sys, key(18), 0);
        w.crank_auth = w.add(sys, key(19), 0);
        for n in 0..o.users as u64 {
            let owner = w.add(sys, key(100 + n * 10), 0);
            let k = w.a[owner].key;
            let oo = w.add(prog, key(101 + n * 10), 12 + 3216);
            let coin = w.token(key(102 + n * 10), cm, &k, 1_000_000);
            let pc = w.token(key(103 + n * 10), pm, &k, 1_000_000_000);
            let s = w.token(key(104 + n * 10), srm, &k, o.srm);
            w.u.push(User { owner, oo, coin, pc, srm: s });
        }
        let r = key(50);
        w.referrer = w.token(key(51), pm, &r, 0);
        w.sweeper = w.add(sys, fee_sweeper::ID, 0);
        w.sweep_to = w.token(key(52), pm, &fee_sweeper::ID, 0);
        w.disabler = w.add(sys, disable_authority::ID, 0);
        w.dest = w.add(sys, key(53), 0);
        let d = MarketInstruction::InitializeMarket(InitializeMarketInstruction {
            coin_lot_size: o.coin_lot, pc_lot_size: o.pc_lot, fee_rate_bps: 0, vault_signer_nonce: n, pc_dust_threshold: 5,
        }).pack();
        let mut l = vec![w.market, w.req_q, w.event_q, w.bids, w.asks, w.coin_vault, w.pc_vault, w.coin_mint, w.pc_mint, w.rent];
        if o.auth > 0 { l.push(w.oo_auth) }
        if o.auth > 1 { l.push(w.prune_auth) }
        if o.auth > 2 { l.push(w.crank_auth) }
        assert!(w.run(d, &l, &[]), "market set-up failed");
        w
    }
    /// one transaction: true if accepted; refused ones leave no trace
    pub fn run(&mut self, data: Vec<u8>, l: &[I], signers: &[I]) -> bool {
        let before = self.a.clone();
        CALLER.with(|c| *c.borrow_mut() = self.prog);
        let prog = self.prog;
        let base = self.a.as_mut_ptr();
        let ok = {
            let mut infos: Vec<AccountInfo> = vec![];
            for (n, &i) in l.iter().enumerate() {
                if let Some(p) = l[..n].iter().position(|&j| j == i) {
                    let c = infos[p].clone();
                    infos.push(c);
                    continue;
                }
                let x = unsafe { &mut *base.add(i) };
                let len = x.len;
                let d = unsafe { std::slice::from_raw_parts_mut(x.data.as_mut_ptr() as *mut u8, len) };
                infos.push(AccountInfo::new(&x.key, signers.contains(&i), true, &mut x.lam, d, &x.owner, false, 0));
            }
            matches!(catch_unwind(AssertUnwindSafe(|| serum_dex::state::State::process(&prog, &infos, &data))), Ok(Ok(())))
        };
        if !ok {
            self.a = before;
        }
        ok
    }
    pub fn order_accs(&self, u: usize, side: Side) -> Vec<I> {
        let x = &self.u[u];
        vec![self.market, x.oo, self.req_q, self.event_q, self.bids, self.asks, if side == Side::Bid { x.pc } else { x.coin }, x.owner, self.coin_vault, self.pc_vault, self.token, self.rent]
    }
    pub fn place(&mut self, u: usize, o: NewOrderInstructionV3) -> bool {
        let mut l = self.order_accs(u, o.side);
        if self.o.srm > 0 {
            l.push(self.u[u].srm)
        }
        let s = self.u[u].owner;
        self.run(MarketInstruction::NewOrderV3(o).pack(), &l, &[s])
    }
    pub fn replace(&mut self, u: usize, o: Vec<NewOrderInstructionV3>) -> bool {
        let l = self.order_accs(u, o[0].side);
        let s = self.u[u].owner;
        self.run(MarketInstruction::ReplaceOrdersByClientIds(o).pack(), &l, &[s])
    }
    pub fn cancel_accs(&self, u: usize) -> Vec<I> {
        vec![self.market, self.bids, self.asks, self.u[u].oo, self.u[u].owner, self.event_q]
    }
    pub fn cancel(&mut self, u: usize, side: Side, id: u128) -> bool {
        let (l, s) = (self.cancel_accs(u), self.u[u].owner);
        self.run(MarketInstruction::CancelOrderV2(CancelOrderInstructionV2 { side, order_id: id }).pack(), &l, &[s])
    }
    pub fn cancel_client(&mut self, u: usize, id: u64) -> bool {
        let (l, s) = (self.cancel_accs(u), self.u[u].owner);
        self.run(MarketInstruction::CancelOrderByClientIdV2(id).pack(), &l, &[s])
    }
    pub fn cancel_clients(&mut self, u: usize, ids: [u64; 8]) -> bool {
        let (l, s) = (self.cancel_accs(u), self.u[u].owner);
        self.run(MarketInstruction::CancelOrdersByClientIds(ids).pack(), &l, &[s])
    }
    pub fn crank(&mut self, limit: u16, users: &[usize]) -> bool {
        let mut l: Vec<I> = users.iter().map(|&u| self.u[u].oo).collect();
        l.sort_by_key(|&i| {
            let b = self.a[i].key.to_bytes();
            let mut v = [0u64; 4];
            for k in 0..4 {
                let mut t = [0u8; 8];
                t.copy_from_slice(&b[8 * k..8 * k + 8]);
                v[k] = u64::from_le_bytes(t);
            }
            v
        });
        l.extend_from_slice(&[self.market, self.event_q, self.coin_vault, self.pc_vault]);
        self.run(MarketInstruction::ConsumeEvents(limit).pack(), &l, &[])
    }
    pub fn settle(&mut self, u: usize, referrer: bool) -> bool {
        let x = self.u[u].clone();
        let mut l = vec![self.market, x.oo, x.owner, self.coin_vault, self.pc_vault, x.coin, x.pc, self.vault_signer, self.token];
        if referrer {
            l.push(self.referrer)
        }
        self.run(MarketInstruction::SettleFunds.pack(), &l, &[x.owner])
    }
    pub fn take(&mut self, u: usize, t: SendTakeInstruction) -> bool {
        let x = self.u[u].clone();
        let l = vec![self.market, self.req_q, self.event_q, self.bids, self.asks, x.coin, x.pc, x.owner, self.coin_vault, self.pc_vault, self.token, self.vault_signer];
        self.run(MarketInstruction::SendTake(t).pack(), &l, &[x.owner])
    }
    pub fn close(&mut self, u: usize) -> bool {
        let x = self.u[u].clone();
        let l = [x.oo, x.owner, self.dest, self.market];
        self.run(MarketInstruction::CloseOpenOrders.pack(), &l, &[x.owner])
    }
    pub fn init_oo(&mut self, u: usize) -> bool {
        let x = self.u[u].clone();
        let mut l = vec![x.oo, x.owner, self.market, self.rent];
        let mut s = vec![x.owner];
        if self.o.auth > 0 {
            l.push(self.oo_auth);
            s.push(self.oo_auth);
        }
        self.run(MarketInstruction::InitOpenOrders.pack(), &l, &s)
    }
    pub fn prune(&mut self, u: usize, limit: u16) -> bool {
        let x = self.u[u].clone();
        let l = [self.market, self.bids, self.asks, self.prune_auth, x.oo, x.owner, self.event_q];
        self.run(MarketInstruction::Prune(limit).pack(), &l, &[self.prune_auth])
    }
    pub fn sweep(&mut self) -> bool {
        let l = [self.market, self.pc_vault, self.sweeper, self.sweep_to, self.vault_signer, self.token];
        self.run(MarketInstruction::SweepFees.pack(), &l, &[self.sweeper])
    }
    pub fn disable(&mut self) -> bool {
        let l = [self.market, self.disabler];
        self.run(MarketInstruction::DisableMarket.pack(), &l, &[self.disabler])
    }
    pub fn u64_at(&self, i: I, off: usize) -> u64 {
        let mut t = [0u8; 8];
        t.copy_from_slice(&self.a[i].bytes()[off..off + 8]);
        u64::from_le_bytes(t)
    }
    pub fn bal(&self, i: I) -> u64 {
        self.u64_at(i, 64)
    }
    /// (coin free, coin total, pc free, pc total)
    pub fn funds(&self, u: usize) -> (u64, u64, u64, u64) {
        let i = self.u[u].oo;
        (self.u64_at(i, 77), self.u64_at(i, 85), self.u64_at(i, 93), self.u64_at(i, 101))
    }
    pub fn order_id(&self, u: usize, slot: usize) -> u128 {
        let i = self.u[u].oo;
        let o = 5 + 72 + 32 + 32 + 16 * slot;
        (self.u64_at(i, o) as u128) | ((self.u64_at(i, o + 8) as u128) << 64)
    }
    pub fn free_slots(&self, u: usize) -> u128 {
        let i = self.u[u].oo;
        (self.u64_at(i, 109) as u128) | ((self.u64_at(i, 117) as u128) << 64)
    }
    /// (coin deposits, pc deposits, pc fees, rebates)
    pub fn totals(&self) -> (u64, u64, u64, u64) {
        let m = self.market;
        let f = |k: usize| self.u64_at(m, 5 + 8 * k);
        (f(18), f(24), f(25), f(46))
    }
    pub fn leaves(&self, book: I) -> u64 {
        // flags, then bump, free list, root, leaf count
        self.u64_at(book, 5 + 8 + 24)
    }
    pub fn events(&self) -> u64 {
        self.u64_at(self.event_q, 5 + 16)
    }
}
pub fn report(ok: bool, what: &str) {
    if ok {
        println!("ok: {}", what);
    } else {
        println!("BROKEN: {}", what);
        std::process::exit(1);
    }
}
