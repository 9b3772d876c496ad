//! A market, its traders and the reference meaning of each client operation.
use crate::node::*;
use crank::MarketPubkeys;
use serum_dex::instruction::*;
use serum_dex::matching::{OrderType, Side};
use solana_program::{instruction::AccountMeta, instruction::Instruction, program_pack::Pack, pubkey::Pubkey, rent::Rent, system_program, sysvar};
use solana_sdk::signature::{keypair_from_seed, Keypair, Signer};
use std::num::NonZeroU64;

pub fn kp(n: u64) -> Keypair {
    let mut s = [3u8; 32];
    s[..8].copy_from_slice(&n.to_le_bytes());
    keypair_from_seed(&s).unwrap()
}
pub fn dup(k: &Keypair) -> Keypair {
    Keypair::from_bytes(&k.to_bytes()).unwrap()
}
pub const OO_LEN: usize = 3216 + 12;
pub fn rent(n: usize) -> u64 {
    Rent::default().minimum_balance(n)
}

#[derive(Clone, Copy)]
pub struct Opt {
    pub users: usize,
    pub events: usize,
    pub perm: bool,
    pub coin_lot: u64,
    pub pc_lot: u64,
}
impl Default for Opt {
    fn default() -> Opt {
        Opt { users: 2, events: 128, perm: false, coin_lot: 10, pc_lot: 100 }
    }
}
pub struct World {
    pub dex: Pubkey,
    pub payer: Keypair,
    pub minter: Keypair,
    pub users: Vec<Keypair>,
    pub oo: Vec<Pubkey>,
    pub coin: Vec<Pubkey>,
    pub pc: Vec<Pubkey>,
    pub coin_mint: Pubkey,
    pub pc_mint: Pubkey,
    pub m: MarketPubkeys,
    pub auth: Pubkey,
    pub init: Chain,
    pub opt: Opt,
}
pub fn token_data(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Vec<u8> {
    let mut d = vec![0; 165];
    let mut t = spl_token::state::Account::default();
    t.mint = *mint;
    t.owner = *owner;
    t.amount = amount;
    t.state = spl_token::state::AccountState::Initialized;
    spl_token::state::Account::pack(t, &mut d).unwrap();
    d
}
pub fn mint_data(auth: &Pubkey, dec: u8, supply: u64) -> Vec<u8> {
    let mut d = vec![0; spl_token::state::Mint::LEN];
    let mut m = spl_token::state::Mint::default();
    m.is_initialized = true;
    m.decimals = dec;
    m.supply = supply;
    m.mint_authority = solana_program::program_option::COption::Some(*auth);
    spl_token::state::Mint::pack(m, &mut d).unwrap();
    d
}
fn key(n: u64) -> Pubkey {
    let mut b = [9u8; 32];
    b[..8].copy_from_slice(&(n.wrapping_mul(0x9e37_79b9_7f4a_7c15)).to_le_bytes());
    Pubkey::new(&b)
}
impl World {
    pub fn new(o: Opt) -> World {
        let dex = key(1);
        let mut c = Chain::new(dex);
        let payer = kp(1);
        let minter = kp(2);
        let sol = 1_000_000_000_000;
        c.put(payer.pubkey(), system_program::ID, sol, vec![], false);
        c.put(minter.pubkey(), system_program::ID, sol, vec![], false);
        let (cm, pm) = (key(2), key(3));
        c.put(cm, spl_token::ID, rent(82), mint_data(&minter.pubkey(), 3, 1 << 50), false);
        c.put(pm, spl_token::ID, rent(82), mint_data(&minter.pubkey(), 6, 1 << 50), false);
        let mut w = World {
            dex,
            payer,
            minter,
            users: vec![],
            oo: vec![],
            coin: vec![],
            pc: vec![],
            coin_mint: cm,
            pc_mint: pm,
            auth: key(4),
            m: MarketPubkeys {
                market: Box::new(key(10)),
                req_q: Box::new(key(11)),
                event_q: Box::new(key(12)),
                bids: Box::new(key(13)),
                asks: Box::new(key(14)),
                coin_vault: Box::new(key(15)),
                pc_vault: Box::new(key(16)),
                vault_signer_key: Box::new(key(17)),
            },
            init: c.clone(),
            opt: o,
        };
        let (n, vs) = (0u64..200).find_map(|n| Pubkey::create_program_address(&[(*w.m.market).as_ref(), &n.to_le_bytes()], &dex).ok().map(|k| (n, k))).unwrap();
        w.m.vault_signer_key = Box::new(vs);
        for (k, l) in &[(*w.m.market, if o.perm { 1464 } else { 376 }), (*w.m.req_q, 32 + 80 * 4), (*w.m.event_q, 32 + 88 * o.events), (*w.m.bids, 40 + 72 * 401), (*w.m.asks, 40 + 72 * 401)] {
            c.put(*k, dex, rent(l + 12), vec![0; l + 12], false);
        }
        c.put(*w.m.coin_vault, spl_token::ID, rent(165), token_data(&cm, &vs, 0), false);
        c.put(*w.m.pc_vault, spl_token::ID, rent(165), token_data(&pm, &vs, 0), false);
        let mut accs: Vec<(Pubkey, bool, bool)> = [&w.m.market, &w.m.req_q, &w.m.event_q, &w.m.bids, &w.m.asks, &w.m.coin_vault, &w.m.pc_vault].iter().map(|k| (***k, false, true)).collect();
        for k in &[cm, pm, sysvar::rent::ID] {
            accs.push((*k, false, false));
        }
        if o.perm {
            accs.push((w.auth, false, false));
        }
        let data = MarketInstruction::InitializeMarket(InitializeMarketInstruction { coin_lot_size: o.coin_lot, pc_lot_size: o.pc_lot, fee_rate_bps: 0, vault_signer_nonce: n, pc_dust_threshold: 5 }).pack();
        c.all(&[Ix { prog: dex, accs, data }]).expect("market");
        for u in 0..o.users {
            let k = kp(100 + u as u64);
            c.put(k.pubkey(), system_program::ID, sol, vec![], false);
            let (a, b) = (key(1000 + u as u64), key(2000 + u as u64));
            c.put(a, spl_token::ID, rent(165), token_data(&cm, &k.pubkey(), 5_000), false);
            c.put(b, spl_token::ID, rent(165), token_data(&pm, &k.pubkey(), 1_000_000), false);
            w.coin.push(a);
            w.pc.push(b);
            w.oo.push(key(3000 + u as u64));
            w.users.push(k);
        }
        w.init = c;
        w
    }
    pub fn fresh_oo(&self, c: &mut Chain, u: usize) {
        c.put(self.oo[u], self.dex, rent(OO_LEN), vec![0; OO_LEN], false);
    }
    fn ix(&self, data: Vec<u8>, accs: Vec<(Pubkey, bool, bool)>) -> Ix {
        Ix { prog: self.dex, accs, data }
    }
    // ---- reference instructions, from the documentation of each
    pub fn r_create(&self, from: &Pubkey, k: &Pubkey, len: usize, owner: &Pubkey) -> Ix {
        let i = solana_program::system_instruction::create_account(from, k, rent(len), len as u64, owner);
        Ix { prog: system_program::ID, accs: vec![(*from, true, true), (*k, true, true)], data: i.data }
    }
    pub fn r_init_oo(&self, oo: &Pubkey, owner: &Pubkey) -> Ix {
        self.ix(MarketInstruction::InitOpenOrders.pack(), vec![(*oo, false, true), (*owner, true, false), (*self.m.market, false, false), (sysvar::rent::ID, false, false)])
    }
    pub fn r_place(&self, oo: &Pubkey, owner: &Pubkey, wallet: &Pubkey, o: &NewOrderInstructionV3) -> Ix {
        let m = &self.m;
        let mut a: Vec<(Pubkey, bool, bool)> = vec![*m.market, *oo, *m.req_q, *m.event_q, *m.bids, *m.asks, *wallet].into_iter().map(|k| (k, false, true)).collect();
        a.push((*owner, true, false));
        a.push((*m.coin_vault, false, true));
        a.push((*m.pc_vault, false, true));
        a.push((spl_token::ID, false, false));
        a.push((sysvar::rent::ID, false, false));
        self.ix(MarketInstruction::NewOrderV3(o.clone()).pack(), a)
    }
    fn cancel_accs(&self, oo: &Pubkey, owner: &Pubkey) -> Vec<(Pubkey, bool, bool)> {
        let m = &self.m;
        vec![(*m.market, false, true), (*m.bids, false, true), (*m.asks, false, true), (*oo, false, true), (*owner, true, false), (*m.event_q, false, true)]
    }
    pub fn r_cancel(&self, oo: &Pubkey, owner: &Pubkey, id: u64) -> Ix {
        self.ix(MarketInstruction::CancelOrderByClientIdV2(id).pack(), self.cancel_accs(oo, owner))
    }
    pub fn r_cancels(&self, oo: &Pubkey, owner: &Pubkey, ids: [u64; 8]) -> Ix {
        self.ix(MarketInstruction::CancelOrdersByClientIds(ids).pack(), self.cancel_accs(oo, owner))
    }
    pub fn r_close(&self, oo: &Pubkey, owner: &Pubkey) -> Ix {
        self.ix(MarketInstruction::CloseOpenOrders.pack(), vec![(*oo, false, true), (*owner, true, false), (*owner, true, true), (*self.m.market, false, false)])
    }
    pub fn r_settle(&self, oo: &Pubkey, owner: &Pubkey, coin: &Pubkey, pc: &Pubkey) -> Ix {
        let m = &self.m;
        self.ix(
            MarketInstruction::SettleFunds.pack(),
            vec![(*m.market, false, true), (*oo, false, true), (*owner, true, false), (*m.coin_vault, false, true), (*m.pc_vault, false, true), (*coin, false, true), (*pc, false, true), (*m.vault_signer_key, false, false), (spl_token::ID, false, false)],
        )
    }
    /// consumption of up to `n` events with the accounts of everybody who has events pending
    pub fn r_consume(&self, c: &Chain, n: u16) -> Ix {
        let mut k = self.pending(c);
        k.sort_by_key(words);
        k.dedup();
        let mut a: Vec<(Pubkey, bool, bool)> = k.into_iter().map(|k| (k, false, true)).collect();
        for k in &[&self.m.market, &self.m.event_q, &self.m.coin_vault, &self.m.pc_vault] {
            a.push((***k, false, true));
        }
        self.ix(MarketInstruction::ConsumeEvents(n).pack(), a)
    }
    /// owners of the pending events, first to be consumed first (own reading of the ring)
    pub fn pending(&self, c: &Chain) -> Vec<Pubkey> {
        let q = &self.m.event_q;
        let d = c.data(q);
        let cap = (d.len() - 12 - 32) / 88;
        let (head, count) = (c.u64_at(q, 13) as usize, c.u64_at(q, 21) as usize);
        (0..count)
            .map(|i| {
                let o = 5 + 32 + 88 * ((head + i) % cap);
                Pubkey::new(&d[o + 48..o + 80])
            })
            .collect()
    }
}
pub fn words(k: &Pubkey) -> [u64; 4] {
    let b = k.to_bytes();
    let mut w = [0u64; 4];
    for j in 0..4 {
        let mut x = [0u8; 8];
        x.copy_from_slice(&b[8 * j..8 * j + 8]);
        w[j] = u64::from_le_bytes(x);
    }
    w
}
pub fn nz(x: u64) -> NonZeroU64 {
    NonZeroU64::new(x).unwrap()
}
pub fn order(side: Side, price: u64, qty: u64, cid: u64) -> NewOrderInstructionV3 {
    NewOrderInstructionV3 {
        side,
        limit_price: nz(price),
        max_coin_qty: nz(qty),
        max_native_pc_qty_including_fees: nz(if side == Side::Bid { price * qty * 100 + price * qty + 5 } else { u64::MAX }),
        self_trade_behavior: SelfTradeBehavior::DecrementTake,
        order_type: OrderType::Limit,
        client_order_id: cid,
        limit: 10,
        max_ts: i64::MAX,
    }
}
pub fn meta(i: &Instruction) -> Vec<AccountMeta> {
    i.accounts.clone()
}
