//! The permissioned-market proxy (OpenOrdersPda, ReferralFees and Logger in front of the real
//! order book), compared with what the user may do and with the order book called directly.
use crate::explore::*;
use crate::rt::*;
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program::system_program;

pub const OO_LEN: usize = 3216 + 12;

#[derive(Clone)]
pub struct Mk {
    pub market: Idx,
    pub req_q: Idx,
    pub event_q: Idx,
    pub bids: Idx,
    pub asks: Idx,
    pub coin_vault: Idx,
    pub pc_vault: Idx,
    pub signer: Idx,
    pub ia: Idx,
    pub ia_bump: u8,
    pub prune: Idx,
    pub crank: Idx,
    pub oo: Vec<Idx>,
    pub bump: Vec<u8>,
}
#[derive(Clone)]
pub struct X {
    pub ps: u64,
    pub w: World,
    pub dex: Idx,
    pub sys: Idx,
    pub spl: Idx,
    pub rent: Idx,
    pub users: Vec<Idx>,
    pub coin: Vec<Idx>,
    pub pc: Vec<Idx>,
    pub refr: Idx,
    pub bad_ref: Idx,
    pub m: Mk,
    pub m2: Mk,
    pub m3: Mk,
}

fn oo_seeds(prog: &Pubkey, market: &Pubkey, user: &Pubkey) -> (Pubkey, u8) {
    find_pda(&[b"open-orders", dex_id().as_ref(), market.as_ref(), user.as_ref()], prog)
}
fn ia_seeds(prog: &Pubkey, market: &Pubkey) -> (Pubkey, u8) {
    find_pda(&[b"open-orders-init", dex_id().as_ref(), market.as_ref()], prog)
}
fn hdr(d: u32) -> Vec<u8> {
    let mut v = vec![0u8];
    v.extend_from_slice(&d.to_le_bytes());
    v
}
#[derive(Clone, Copy)]
pub struct New {
    pub side: u32,
    pub price: u64,
    pub qty: u64,
    pub pc: u64,
    pub stb: u32,
    pub ty: u32,
    pub cid: u64,
    pub limit: u16,
    pub ts: Option<i64>,
}
impl New {
    pub fn bytes(&self) -> Vec<u8> {
        let mut v = hdr(10);
        v.extend_from_slice(&self.side.to_le_bytes());
        v.extend_from_slice(&self.price.to_le_bytes());
        v.extend_from_slice(&self.qty.to_le_bytes());
        v.extend_from_slice(&self.pc.to_le_bytes());
        v.extend_from_slice(&self.stb.to_le_bytes());
        v.extend_from_slice(&self.ty.to_le_bytes());
        v.extend_from_slice(&self.cid.to_le_bytes());
        v.extend_from_slice(&self.limit.to_le_bytes());
        if let Some(t) = self.ts {
            v.extend_from_slice(&t.to_le_bytes());
        }
        v
    }
}
fn bid() -> New {
    New { side: 0, price: 10, qty: 2, pc: 30_000, stb: 0, ty: 0, cid: 1, limit: 5, ts: None }
}
fn ask() -> New {
    New { side: 1, price: 10, qty: 1, pc: 1, stb: 0, ty: 0, cid: 2, limit: 5, ts: None }
}

fn market(w: &mut World, t: u64, nm: &str, auth: u8, crank: bool, users: &[Idx], mints: (Pubkey, Pubkey), rent: Idx, lots: (u64, u64)) -> Mk {
    let mk = mk_key(t, 0);
    let (nonce, vs) = (0u64..255).find_map(|n| pda(&[mk.as_ref(), &n.to_le_bytes()], &dex_id()).map(|k| (n, k))).unwrap();
    let dexacc = |w: &mut World, n: &str, i: u64, len: usize| w.add(&format!("{}{}", nm, n), mk_key(t, i), dex_id(), 60_000_000_000, vec![0; len + 12]);
    let market = dexacc(w, "market", 0, if auth > 0 { 376 + 96 + 992 } else { 376 });
    let req_q = dexacc(w, "req_q", 1, 32 + 80);
    let event_q = dexacc(w, "event_q", 2, 32 + 88 * 128);
    let bids = dexacc(w, "bids", 3, 40 + 72 * 201);
    let asks = dexacc(w, "asks", 4, 40 + 72 * 201);
    let coin_vault = w.token(&format!("{}coin_vault", nm), mk_key(t, 5), mints.0, vs, 0);
    let pc_vault = w.token(&format!("{}pc_vault", nm), mk_key(t, 6), mints.1, vs, 0);
    let signer = w.add(&format!("{}vault_signer", nm), vs, system_program::ID, 0, vec![]);
    let (ik, ib) = ia_seeds(&proxy_id(), &mk);
    let ia = w.add(&format!("{}init_authority", nm), ik, system_program::ID, 0, vec![]);
    let prune = w.wallet(&format!("{}prune_authority", nm), mk_key(t, 8));
    let crank_i = w.wallet(&format!("{}crank_authority", nm), mk_key(t, 9));
    let (mut oo, mut bump) = (vec![], vec![]);
    for (u, i) in users.iter().enumerate() {
        let (k, b) = oo_seeds(&proxy_id(), &mk, &w.key(*i));
        oo.push(w.add(&format!("{}oo{}", nm, (b'A' + u as u8) as char), k, system_program::ID, 0, vec![]));
        bump.push(b);
    }
    let mut d = hdr(0);
    d.extend_from_slice(&lots.0.to_le_bytes());
    d.extend_from_slice(&lots.1.to_le_bytes());
    d.extend_from_slice(&0u16.to_le_bytes());
    d.extend_from_slice(&nonce.to_le_bytes());
    d.extend_from_slice(&5u64.to_le_bytes());
    let (cm, pm) = (w.idx(&mints.0).unwrap(), w.idx(&mints.1).unwrap());
    let mut accs = vec![market, req_q, event_q, bids, asks, coin_vault, pc_vault, cm, pm, rent];
    if auth > 0 {
        accs.push(ia);
    }
    if auth > 1 {
        accs.push(prune);
    }
    if crank {
        accs.push(crank_i);
    }
    let (out, st) = w.exec(&w.st, &Ix { prog: dex_id(), data: d, accs, signers: vec![] });
    w.st = st;
    if !out.ok() {
        w.broken.push(("result", format!("market initialization refused ({:?}) although it is legitimate", out)));
    }
    Mk { market, req_q, event_q, bids, asks, coin_vault, pc_vault, signer, ia, ia_bump: ib, prune, crank: crank_i, oo, bump }
}

pub fn build(crank: bool) -> X {
    build_sized(crank, 1, 1)
}
/// lots and holdings of the base and the quote currency multiplied
pub fn build_sized(crank: bool, cs: u64, ps: u64) -> X {
    let mut w = World::new();
    let dex = w.program("dex", dex_id());
    let sys = w.program("system", system_program::ID);
    let spl = w.program("token_program", spl_token::ID);
    w.program("proxy", proxy_id());
    w.program("proxy2", proxy2_id());
    let rent = w.rent();
    let cm = mk_key(1, 1);
    let pm = mk_key(1, 2);
    w.mint("coin_mint", cm, None, 1 << 40);
    w.mint("pc_mint", pm, None, 1 << 40);
    let users: Vec<Idx> = (0..2).map(|i| w.wallet(["userA", "userB"][i], mk_key(2, i as u64))).collect();
    let (mut coin, mut pc) = (vec![], vec![]);
    for (u, i) in users.iter().enumerate() {
        let k = w.key(*i);
        let n = ["A", "B"][u];
        coin.push(w.token(&format!("coin{}", n), mk_key(3, u as u64), cm, k, 5_000 * cs));
        pc.push(w.token(&format!("pc{}", n), mk_key(4, u as u64), pm, k, 400_000 * ps));
    }
    let rk = w.wallet("referral", referral());
    let rkk = w.key(rk);
    let refr = w.token("referral_pc", mk_key(5, 0), pm, rkk, 0);
    w.token("referral_coin", mk_key(5, 1), cm, rkk, 0);
    let bk = w.key(users[1]);
    let bad_ref = w.token("pcB2", mk_key(5, 2), pm, bk, 0);
    // an account with the referral key where a token account has its owner, but not one
    let mut fake = token_data(&pm, &rkk, 0);
    fake[108] = 0;
    w.add("fake_referral", mk_key(5, 3), system_program::ID, 1_000_000_000, fake);
    let m = market(&mut w, 10, "", 2, crank, &users, (cm, pm), rent, (100 * cs, 1009 * ps));
    let m2 = market(&mut w, 11, "m2_", 2, crank, &users, (cm, pm), rent, (211 * cs, 20 * ps));
    let m3 = market(&mut w, 12, "m3_", 0, false, &users, (cm, pm), rent, (100, 1009));
    // the other proxy's derived accounts
    let mk = w.key(m.market);
    for (u, i) in users.iter().enumerate() {
        let k = w.key(*i);
        let (p, _) = oo_seeds(&proxy2_id(), &mk, &k);
        w.add(["p2_ooA", "p2_ooB"][u], p, system_program::ID, 0, vec![]);
        // ordinary open orders accounts of the open market
        w.add(["plain_ooA", "plain_ooB"][u], mk_key(6, u as u64), dex_id(), 60_000_000_000, vec![0; OO_LEN]);
    }
    // fee discounts: tokens held by the trading accounts themselves, and by their users
    let srm = serum_dex::instruction::srm_token::ID;
    for (u, i) in users.iter().enumerate() {
        let (a, b) = (w.key(m.oo[u]), w.key(m2.oo[u]));
        w.token(["srm_ooA", "srm_ooB"][u], mk_key(97, u as u64), srm, a, 1_000_000_000_000);
        w.token(["m2_srm_ooA", "m2_srm_ooB"][u], mk_key(97, 2 + u as u64), srm, b, 100_000_000);
        let k = w.key(*i);
        w.token(["srmA", "srmB"][u], mk_key(97, 4 + u as u64), srm, k, 1_000_000_000_000);
    }
    let (p, _) = ia_seeds(&proxy2_id(), &mk);
    w.add("p2_init_authority", p, system_program::ID, 0, vec![]);
    // those who only sign, or are only looked at
    for k in &[&m, &m2, &m3] {
        w.ro.extend_from_slice(&[k.ia, k.prune, k.crank, k.signer]);
    }
    X { ps, w, dex, sys, spl, rent, users, coin, pc, refr, bad_ref, m, m2, m3 }
}

impl X {
    fn px(&self, disc: &[u8], data: Vec<u8>, accs: Vec<Idx>, signers: Vec<Idx>) -> Ix {
        let mut d = disc.to_vec();
        d.extend(data);
        let mut a = vec![self.dex];
        a.extend(accs);
        Ix { prog: proxy_id(), data: d, accs: a, signers }
    }
    fn mk(&self, n: usize) -> &Mk {
        [&self.m, &self.m2, &self.m3][n]
    }
    pub fn init(&self, n: usize, u: usize) -> Ix {
        let m = self.mk(n);
        self.px(&[0, m.bump[u], m.ia_bump], hdr(15), vec![self.dex, self.sys, m.oo[u], self.users[u], m.market, self.rent, m.ia], vec![self.users[u]])
    }
    pub fn new(&self, n: usize, u: usize, o: New) -> Ix {
        let m = self.mk(n);
        let o = New { pc: o.pc.saturating_mul(self.ps), ..o };
        let payer = if o.side == 0 { self.pc[u] } else { self.coin[u] };
        self.px(&[1], o.bytes(), vec![m.market, m.oo[u], m.req_q, m.event_q, m.bids, m.asks, payer, self.users[u], m.coin_vault, m.pc_vault, self.spl, self.rent], vec![self.users[u]])
    }
    fn cancel_raw(&self, n: usize, u: usize, d: Vec<u8>) -> Ix {
        let m = self.mk(n);
        self.px(&[1], d, vec![m.market, m.bids, m.asks, m.oo[u], self.users[u], m.event_q], vec![self.users[u]])
    }
    pub fn cancel(&self, n: usize, u: usize, side: u32, id: u128) -> Ix {
        let mut d = hdr(11);
        d.extend_from_slice(&side.to_le_bytes());
        d.extend_from_slice(&id.to_le_bytes());
        self.cancel_raw(n, u, d)
    }
    pub fn cancel_cid(&self, n: usize, u: usize, c: u64) -> Ix {
        let mut d = hdr(12);
        d.extend_from_slice(&c.to_le_bytes());
        self.cancel_raw(n, u, d)
    }
    pub fn settle(&self, n: usize, u: usize) -> Ix {
        let m = self.mk(n);
        self.px(&[1], hdr(5), vec![m.market, m.oo[u], self.users[u], m.coin_vault, m.pc_vault, self.coin[u], self.pc[u], m.signer, self.spl, self.refr], vec![self.users[u]])
    }
    pub fn close(&self, n: usize, u: usize) -> Ix {
        let m = self.mk(n);
        self.px(&[1], hdr(14), vec![m.oo[u], self.users[u], self.users[u], m.market], vec![self.users[u]])
    }
    pub fn consume(&self, n: usize, limit: u16, us: &[usize]) -> Ix {
        let m = self.mk(n);
        let mut a: Vec<Idx> = us.iter().map(|u| m.oo[*u]).collect();
        a.sort_by_key(|i| words(&self.w.key(*i)));
        a.extend_from_slice(&[m.market, m.event_q, m.coin_vault, m.pc_vault]);
        let mut d = hdr(3);
        d.extend_from_slice(&limit.to_le_bytes());
        self.px(&[1], d, a, vec![])
    }
    pub fn consume_perm(&self, n: usize, limit: u16, us: &[usize]) -> Ix {
        let m = self.mk(n);
        let mut a: Vec<Idx> = us.iter().map(|u| m.oo[*u]).collect();
        a.sort_by_key(|i| words(&self.w.key(*i)));
        a.extend_from_slice(&[m.market, m.event_q, m.crank]);
        let mut d = hdr(17);
        d.extend_from_slice(&limit.to_le_bytes());
        self.px(&[1], d, a, vec![m.crank])
    }
    pub fn prune(&self, n: usize, u: usize, limit: u16) -> Ix {
        let m = self.mk(n);
        let mut d = hdr(16);
        d.extend_from_slice(&limit.to_le_bytes());
        self.px(&[1], d, vec![m.market, m.bids, m.asks, m.prune, m.oo[u], m.oo[u], m.event_q], vec![m.prune])
    }
    fn fund(&self, to: Idx, n: u64) -> Ix {
        let mut d = vec![2, 0, 0, 0];
        d.extend_from_slice(&n.to_le_bytes());
        Ix { prog: system_program::ID, data: d, accs: vec![self.users[1], to], signers: vec![self.users[1]] }
    }
    fn scn(self, name: &str, ops: Vec<Op>) -> Scn {
        let init = self.w.st.clone();
        Scn { name: name.to_string(), w: self.w, init, ops, judge: Box::new(judge) }
    }
    /// carries out what the specification says an instruction does (not the proxy itself)
    fn seat(&mut self, ix: &Ix, quiet: bool) {
        if let Want::Yes(s) = want(&self.w, &self.w.st, ix) {
            self.w.st = s;
        } else if !quiet {
            self.w.broken.push(("result", format!("the order book refuses {:?}, called directly, although it is legitimate", ix)));
        }
    }
    /// both users registered on the first two markets, with resting orders, fills and free funds
    pub fn rich(&mut self) {
        for n in 0..2 {
            for u in 0..2 {
                let ix = self.init(n, u);
                self.seat(&ix, false);
            }
            for (u, o) in &[
                (0, New { price: 10, qty: 3, ..bid() }),
                (0, New { price: 30, qty: 2, cid: 5, ..ask() }),
                (1, New { price: 9, qty: 1, cid: 3, ..bid() }),
                (1, New { price: 40, qty: 1, cid: 6, ..ask() }),
                (1, New { price: 10, qty: 1, cid: 4, ..ask() }),
                (0, New { price: 30, qty: 1, pc: 100_000, cid: 7, stb: 1, ..bid() }),
                (1, New { price: 35, qty: 1, cid: 14, ..ask() }),
                (0, New { price: 35, qty: 1, pc: 100_000, ty: 1, cid: 15, ..bid() }),
            ] {
                let ix = self.new(n, *u, *o);
                self.seat(&ix, false);
            }
            // one of the two, depending on the market
            let c = self.consume(n, 12, &[0, 1]);
            self.seat(&c, true);
            let c = self.consume_perm(n, 12, &[0, 1]);
            self.seat(&c, true);
            let ix = self.new(n, 1, New { price: 10, qty: 1, cid: 8, ..ask() });
            self.seat(&ix, false);
            let ix = self.new(n, 0, New { price: 7, qty: 2, cid: 13, ..bid() });
            self.seat(&ix, false);
            let ix = self.cancel_cid(n, 0, 13);
            self.seat(&ix, false);
        }
        // ordinary accounts of the open market, with an order each
        for u in 0..2 {
            let oo = self.w.idx(&mk_key(6, u as u64)).unwrap();
            let (m, us) = (self.m3.clone(), self.users[u]);
            let i = Ix { prog: dex_id(), data: hdr(15), accs: vec![oo, us, m.market, self.rent], signers: vec![us] };
            let (_, s) = self.w.exec(&self.w.st, &i);
            self.w.st = s;
            let mut i = self.new(2, u, New { price: 5 + u as u64, qty: 1, cid: 9, ..bid() });
            i.prog = dex_id();
            i.data.remove(0);
            i.accs.remove(0);
            i.accs[1] = oo;
            let (_, s) = self.w.exec(&self.w.st, &i);
            self.w.st = s;
        }
    }
}

fn words(k: &Pubkey) -> [u64; 4] {
    let b = k.to_bytes();
    let mut w = [0u64; 4];
    for j in 0..4 {
        let mut x = [0u8; 8];
        x.copy_from_slice(&b[8 * j..8 * j + 8]);
        w[j] = u64::from_le_bytes(x);
    }
    w
}
fn u64at(d: &[u8], o: usize) -> u64 {
    let mut x = [0u8; 8];
    x.copy_from_slice(&d[o..o + 8]);
    u64::from_le_bytes(x)
}
fn u128at(d: &[u8], o: usize) -> u128 {
    u64at(d, o) as u128 | (u64at(d, o + 8) as u128) << 64
}
/// the orders an open orders account lists: (side, id)
pub fn orders(st: &St, oo: Idx) -> Vec<(u32, u128)> {
    let d = st.data(oo);
    if d.len() != OO_LEN {
        return vec![];
    }
    let d = &d[5..];
    let (free, isbid) = (u128at(d, 104), u128at(d, 120));
    (0..128).filter(|s| free >> s & 1 == 0).map(|s| (1 - (isbid >> s & 1) as u32, u128at(d, 136 + 16 * s))).collect()
}

// ---------------------------------------------------------------- specification

pub enum Want {
    Yes(St),
    No(&'static str),
    /// either answer, but nothing may change
    Same,
}

/// the relayed instructions with well-formed data
pub fn kind_of(d: &[u8]) -> Option<u32> {
    if d.len() < 5 || d[0] != 0 {
        return None;
    }
    let n = u32::from_le_bytes([d[1], d[2], d[3], d[4]]);
    let b = &d[5..];
    let w = |o: usize| u32::from_le_bytes([b[o], b[o + 1], b[o + 2], b[o + 3]]);
    let ok = match n {
        5 | 14 | 15 => b.is_empty(),
        3 | 16 | 17 => b.len() == 2,
        12 => b.len() == 8,
        11 => b.len() == 20 && w(0) < 2,
        10 => (b.len() == 46 || b.len() == 54) && w(0) < 2 && u64at(b, 4) != 0 && u64at(b, 12) != 0 && u64at(b, 20) != 0 && w(28) < 3 && w(32) < 3,
        _ => false,
    };
    if ok {
        Some(n)
    } else {
        None
    }
}

pub fn want(w: &World, pre: &St, ix: &Ix) -> Want {
    match spec(w, pre, ix) {
        Ok(Some(s)) => Want::Yes(s),
        Ok(None) => Want::Same,
        Err(e) => Want::No(e),
    }
}

fn spec(w: &World, pre: &St, ix: &Ix) -> Result<Option<St>, &'static str> {
    let first = *ix.accs.get(0).ok_or("no accounts")?;
    if w.key(first) != dex_id() {
        return Err("not the order book");
    }
    let disc = *ix.data.get(0).ok_or("no data")?;
    let skip = if disc == 0 { 3 } else { 1 };
    let d = ix.data.get(skip..).ok_or("no data")?;
    let a = &ix.accs[1..];
    let kind = match kind_of(d) {
        Some(k) => k,
        None => return Ok(None),
    };
    let need = match kind {
        15 => 7,
        10 => 12,
        11 | 12 => 6,
        5 => 10,
        14 | 3 => 4,
        17 => 3,
        _ => 7,
    };
    if a.len() < need {
        return Err("accounts missing");
    }
    let own = |market: Idx, user: Idx| w.idx(&oo_seeds(&ix.prog, &w.key(market), &w.key(user)).0);
    let user_at = |i: usize| if ix.signers.contains(&a[i]) { Ok(a[i]) } else { Err("the user did not sign") };
    let run = |st: &St, prog: Pubkey, data: Vec<u8>, accs: Vec<Idx>, signers: Vec<Idx>| -> Result<St, &'static str> {
        let (o, s) = w.exec(st, &Ix { prog, data, accs, signers });
        if o.ok() {
            Ok(s)
        } else {
            Err("refused when called directly")
        }
    };
    // the derived account may take the place of its user, and of nobody else
    let sign = |market: Idx, user: Idx, oo: Idx| -> Result<Vec<Idx>, &'static str> {
        let mut s = ix.signers.clone();
        if own(market, user) == Some(oo) {
            s.push(oo);
        }
        if s.contains(&oo) {
            Ok(s)
        } else {
            Err("not the user's open orders account")
        }
    };
    let mut b = a.to_vec();
    Ok(Some(match kind {
        3 | 17 => run(pre, dex_id(), d.to_vec(), b, ix.signers.clone())?,
        16 => {
            b[5] = b[4];
            run(pre, dex_id(), d.to_vec(), b, ix.signers.clone())?
        }
        11 | 12 => {
            let u = user_at(4)?;
            let s = sign(a[0], u, a[3])?;
            b[4] = b[3];
            run(pre, dex_id(), d.to_vec(), b, s)?
        }
        14 => {
            let u = user_at(1)?;
            let s = sign(a[3], u, a[0])?;
            b[1] = b[0];
            run(pre, dex_id(), d.to_vec(), b, s)?
        }
        5 => {
            let u = user_at(2)?;
            let s = sign(a[0], u, a[1])?;
            if tok(pre, a[9]).map(|t| t.owner) != Some(referral()) {
                return Err("referral fees must go to the configured address");
            }
            b[2] = b[1];
            run(pre, dex_id(), d.to_vec(), b, s)?
        }
        10 => {
            let u = user_at(7)?;
            let s = sign(a[0], u, a[1])?;
            let (market, oo, payer) = (a[0], a[1], a[6]);
            let p = &d[5..];
            let amount = if p[0] == 0 {
                u64at(p, 20)
            } else {
                let m = pre.data(market);
                if m.len() < 5 + 44 * 8 {
                    return Err("not a market");
                }
                u64at(p, 12).checked_mul(u64at(m, 5 + 43 * 8)).ok_or("overflow")?
            };
            let mut q = vec![4u8];
            q.extend_from_slice(&amount.to_le_bytes());
            let st = run(pre, spl_token::ID, q, vec![payer, oo, u], ix.signers.clone())?;
            b[7] = oo;
            let st = run(&st, dex_id(), d.to_vec(), b, s)?;
            run(&st, spl_token::ID, vec![5], vec![payer, u], ix.signers.clone())?
        }
        15 => {
            let (oo, user, market, ia) = (a[2], user_at(3)?, a[4], a[6]);
            if disc != 0 {
                return Err("no bumps");
            }
            if w.key(a[0]) != dex_id() || w.key(a[1]) != system_program::ID || w.key(a[5]) != solana_program::sysvar::rent::ID {
                return Err("wrong program or sysvar");
            }
            let (k, bump) = oo_seeds(&ix.prog, &w.key(market), &w.key(user));
            if k != w.key(oo) || bump != ix.data[1] {
                return Err("not the user's open orders address");
            }
            let iab = [ix.data[2]];
            let mk = w.key(market);
            if pda(&[b"open-orders-init", dex_id().as_ref(), mk.as_ref(), &iab], &ix.prog) != Some(w.key(ia)) {
                return Err("not the market's init authority");
            }
            // the user pays for an account of the right size at the derived address
            if *pre.owner(oo) != system_program::ID || !pre.data(oo).is_empty() {
                return Err("already exists");
            }
            let min = Rent::default().minimum_balance(OO_LEN);
            let pay = min.saturating_sub(pre.accs[oo as usize].lam);
            if pre.accs[user as usize].lam < pay || *pre.owner(user) != system_program::ID || !pre.data(user).is_empty() {
                return Err("cannot pay");
            }
            let mut st = pre.clone();
            st.accs[user as usize].lam -= pay;
            st.accs[oo as usize].lam += pay;
            st.accs[oo as usize].owner = dex_id();
            st.set(oo, vec![0; OO_LEN]);
            let mut s = ix.signers.clone();
            s.push(oo);
            s.push(ia);
            let mut b = a[2..].to_vec();
            b[1] = oo;
            run(&st, dex_id(), d.to_vec(), b, s)?
        }
        _ => return Ok(None),
    }))
}

/// what open orders accounts and token accounts hold
fn show(w: &World, want: &St, got: &St) -> String {
    let mut o = vec![];
    for i in 0..want.accs.len() {
        let (a, b) = (&want.accs[i], &got.accs[i]);
        if a != b {
            let n = w.name(i as Idx);
            o.push(match (tok(want, i as Idx), tok(got, i as Idx)) {
                (Some(x), Some(y)) if x.amount != y.amount => format!("{} holds {} instead of {}", n, y.amount, x.amount),
                (Some(x), Some(y)) => format!("{} is {:?} instead of {:?}", n, y, x),
                _ => format!("{} differs (lamports {} / {}, owner {}, data {})", n, b.lam, a.lam, a.owner == b.owner, a.data == b.data),
            });
        }
    }
    o.join("; ")
}

pub fn judge(w: &World, pre: &St, ix: &Ix, kind: &'static str, out: &Out, post: &St) -> Vec<Finding> {
    let mut f = vec![];
    if ix.prog != proxy_id() && ix.prog != proxy2_id() {
        return f;
    }
    match (want(w, pre, ix), out.ok()) {
        (Want::Yes(s), true) => {
            if s != *post {
                f.push(("state", format!("[{}] {}", kind, show(w, &s, post))));
            }
        }
        (Want::Yes(_), false) => f.push(("result", format!("[{}] refused ({:?}) although it is legitimate", kind, out))),
        (Want::No(e), true) => f.push(("result", format!("[{}] accepted although it must be refused ({})", kind, e))),
        (Want::No(_), false) => (),
        (Want::Same, _) => {
            if pre != post {
                f.push(("state", format!("[{}] an instruction that is not relayed had effects: {}", kind, show(w, pre, post))));
            }
        }
    }
    if out.ok() {
        for i in 0..post.accs.len() as Idx {
            // no allowance is left behind
            if let (Some(a), Some(b)) = (tok(pre, i), tok(post, i)) {
                if b.delegate.is_some() && b.delegate != a.delegate {
                    f.push(("delegate", format!("[{}] {} is left with a delegate", kind, w.name(i))));
                }
                // a token account loses tokens only with its owner's signature, or out of a vault
                let vault = w.name(i).contains("vault");
                if b.amount < a.amount && !vault && w.idx(&a.owner).map_or(true, |o| !ix.signers.contains(&o)) {
                    f.push(("theft", format!("[{}] {} lost {} without its owner's signature", kind, w.name(i), a.amount - b.amount)));
                }
            }
        }
    }
    f
}

// ---------------------------------------------------------------- scenarios

fn sequence_ops(x: &X, crank: bool, k: usize) -> Vec<Op> {
    let mut o = vec![];
    for u in 0..2 {
        let n = ["A", "B"][u];
        o.push(op("init", format!("{} registers", n), x.init(k, u)));
        o.push(op("new", format!("{} bids 2 @ 10", n), x.new(k, u, bid())));
        o.push(op("new", format!("{} asks 1 @ 10", n), x.new(k, u, ask())));
        let y = x.clone();
        o.push(Op {
            label: format!("{} cancels the first order", n),
            kind: "cancel",
            make: Make::Dyn(Box::new(move |_, st| orders(st, y.mk(k).oo[u]).first().map(|(s, id)| y.cancel(k, u, *s, *id)))),
        });
        o.push(op("cancel", format!("{} cancels client id 2", n), x.cancel_cid(k, u, 2)));
        o.push(op("settle", format!("{} settles", n), x.settle(k, u)));
        o.push(op("close", format!("{} closes", n), x.close(k, u)));
    }
    if crank {
        o.push(op("crank", "crank with authority", x.consume_perm(k, 3, &[0, 1])));
    }
    o.push(op("crank", "crank", x.consume(k, 3, &[0, 1])));
    o.push(op("prune", "prune A", x.prune(k, 0, 5)));
    o.push(op("fund", "a lamport for A's address", x.fund(x.mk(k).oo[0], 1)));
    o
}

/// every relayed instruction once, for `u`
fn basis(x: &X, n: usize, u: usize) -> Vec<(&'static str, String, Ix)> {
    let who = ["A", "B"][u];
    let mut v = vec![
        ("new", format!("{}'s bid", who), x.new(n, u, New { price: 8, cid: 11, ..bid() })),
        ("new", format!("{}'s ask", who), x.new(n, u, New { price: 50, cid: 12, ..ask() })),
        ("cancel", format!("{}'s cancel by client id", who), x.cancel_cid(n, u, if u == 0 { 1 } else { 3 })),
        ("settle", format!("{}'s settle", who), x.settle(n, u)),
        ("close", format!("{}'s close", who), x.close(n, u)),
        ("prune", format!("prune of {}", who), x.prune(n, u, 5)),
        ("crank", "crank".to_string(), x.consume(n, 3, &[0, 1])),
        ("crank", "crank with authority".to_string(), x.consume_perm(n, 3, &[0, 1])),
        ("init", format!("{}'s registration", who), x.init(n, u)),
    ];
    for (s, id) in orders(&x.w.st, x.mk(n).oo[u]) {
        v.push(("cancel", format!("{}'s cancel of {:x}", who, id), x.cancel(n, u, s, id)));
    }
    v
}

fn substitution(x: &X) -> Vec<Op> {
    let mut o = vec![];
    let all = x.w.keys.len() as Idx;
    for n in 0..2 {
        for (k, l, ix) in basis(x, n, 0) {
            let l = format!("{} on market {}", l, n + 1);
            let mut sets: Vec<(String, Vec<Idx>)> = vec![("as is".into(), ix.signers.clone()), ("unsigned".into(), vec![])];
            sets.push(("signed by B".into(), vec![x.users[1]]));
            let mut both = ix.signers.clone();
            both.push(x.users[1]);
            sets.push(("also signed by B".into(), both));
            // everybody signs except those whose signature matters (and addresses without a key)
            let keyless = |z: Idx| ["oo", "authority", "vault_signer"].iter().any(|p| x.w.name(z).contains(p));
            let mut rest: Vec<Idx> = ix.accs.iter().copied().filter(|z| !ix.signers.contains(z) && !keyless(*z)).collect();
            rest.push(x.users[1]);
            sets.push(("signed by all others".into(), rest.clone()));
            for (sl, sg) in &sets {
                let mut i = ix.clone();
                i.signers = sg.clone();
                o.push(op(k, format!("{}, {}", l, sl), i.clone()));
                for p in 0..ix.accs.len() {
                    for z in 0..all {
                        let mut j = i.clone();
                        if j.accs[p] == z {
                            continue;
                        }
                        j.accs[p] = z;
                        o.push(op(k, format!("{}, {}, with {} as account {}", l, sl, x.w.name(z), p), j.clone()));
                        if sl == "signed by all others" && !keyless(z) && !ix.signers.contains(&z) {
                            j.signers.push(z);
                            o.push(op(k, format!("{}, {} and {} as account {}", l, sl, x.w.name(z), p), j));
                        }
                    }
                }
            }
            for c in 0..ix.accs.len() {
                let mut i = ix.clone();
                i.accs.truncate(c);
                o.push(op(k, format!("{} with {} accounts", l, c), i));
            }
            for z in 0..all {
                for more in [vec![z], vec![z, x.users[1]], vec![x.users[1], z]] {
                    let mut i = ix.clone();
                    i.accs.extend(more);
                    o.push(op(k, format!("{} with {} and as many as {} accounts", l, x.w.name(z), i.accs.len()), i));
                }
            }
            let mut i = ix.clone();
            i.prog = proxy2_id();
            o.push(op(k, format!("{} through the other proxy", l), i));
        }
    }
    o
}

/// pairs of accounts replaced, signed by B
fn pairs(x: &X) -> Vec<Op> {
    let pick: Vec<Idx> = (0..x.w.keys.len() as Idx)
        .filter(|i| {
            let n = x.w.name(*i);
            n.contains("oo") || n.starts_with("user") || n.ends_with("market") || n.ends_with("init_authority") || n.starts_with("coin") || n.starts_with("pc") || n.contains("ref")
        })
        .collect();
    let mut o = vec![];
    for (k, l, ix) in basis(x, 0, 0) {
        if k == "crank" {
            continue;
        }
        for p in 1..ix.accs.len() {
            for q in p + 1..ix.accs.len() {
                for &y in &pick {
                    for &z in &pick {
                        if y == ix.accs[p] || z == ix.accs[q] {
                            continue;
                        }
                        let mut i = ix.clone();
                        i.accs[p] = y;
                        i.accs[q] = z;
                        i.signers = vec![x.users[1]];
                        if k == "prune" {
                            i.signers.push(x.m2.prune);
                        }
                        o.push(op(k, format!("{} signed by B with {} as {} and {} as {}", l, x.w.name(y), p, x.w.name(z), q), i));
                    }
                }
            }
        }
    }
    o
}

/// every field of every relayed instruction, malformed data and instructions that are not relayed
fn wire(x: &X, mk: usize) -> Vec<Op> {
    let mut o = vec![];
    for u in 0..2 {
        let who = ["A", "B"][u];
        let mut put = |l: String, n: New| o.push(op("new", format!("{} {}", who, l), x.new(mk, u, n)));
        for b in &[bid(), ask()] {
            let s = if b.side == 0 { "bid" } else { "ask" };
            for p in &[1u64, 5, 9, 10, 11, 29, 30, 31, 40, 1 << 20, 1 << 40, u64::MAX] {
                for q in &[1u64, 2, 3, 40, 60, 1 << 30, u64::MAX / 100, u64::MAX] {
                    put(format!("{} {} @ {}", s, q, p), New { price: *p, qty: *q, ..*b });
                }
            }
            for pc in &[1u64, 1_009, 10_090, 100_900, 399_999, 400_000, 400_001, 1 << 40, u64::MAX] {
                put(format!("{} budget {}", s, pc), New { pc: *pc, ..*b });
                put(format!("{} @ 100 budget {}", s, pc), New { pc: *pc, price: if b.side == 0 { 100 } else { 2 }, ..*b });
            }
            for ty in 0..4 {
                for stb in 0..4 {
                    for (p, l) in &[(10u64, 5u16), (31, 1), (9, 0), (41, 65_535)] {
                        put(format!("{} type {} self-trade {} @ {} limit {}", s, ty, stb, p, l), New { ty, stb, price: *p, limit: *l, ..*b });
                    }
                }
            }
            for ts in &[i64::MIN, -1, 0, 999, 1_000, 1_001, i64::MAX] {
                put(format!("{} expiring at {}", s, ts), New { ts: Some(*ts), ..*b });
            }
            for c in &[0u64, 1, 9, u64::MAX, 1 << 63, 0x0102_0304_0506_0708] {
                put(format!("{} client id {:x}", s, c), New { cid: *c, ..*b });
            }
        }
        // with a discount account, right, another's, of another market, the user's own or none
        for b in &[bid(), ask()] {
            for z in (0..x.w.keys.len() as Idx).filter(|z| x.w.name(*z).contains("srm")).chain([x.pc[u], x.users[u], x.refr].iter().copied()) {
                for p in &[9u64, 10, 29, 30, 31] {
                    for ty in 0..3 {
                        let mut i = x.new(mk, u, New { price: *p, ty, pc: 100_000, ..*b });
                        i.accs.push(z);
                        o.push(op("new", format!("{} side {} @ {} type {} with discount {}", who, b.side, p, ty, x.w.name(z)), i));
                    }
                }
            }
        }
        for c in (0..12).chain([1 << 32 | 1, 1 << 40 | 3, u64::MAX, 1 << 63 | 2].iter().copied()) {
            o.push(op("cancel", format!("{} cancels client id {}", who, c), x.cancel_cid(mk, u, c)));
        }
        for v in 0..2 {
            for (s, id) in orders(&x.w.st, x.mk(mk).oo[v]) {
                for (si, i2) in &[(s, id), (1 - s, id), (s, id + 1), (s, id ^ 1 << 64), (2, id), (s, 0)] {
                    o.push(op("cancel", format!("{} cancels {:x} side {}", who, i2, si), x.cancel(mk, u, *si, *i2)));
                }
            }
        }
        for l in &[0u16, 1, 2, 3, 65_535] {
            o.push(op("prune", format!("prune {} limit {}", who, l), x.prune(mk, u, *l)));
        }
        for (n, us) in &[("A", vec![0usize]), ("B", vec![1]), ("both", vec![0, 1]), ("none", vec![])] {
            for l in &[0u16, 1, 2, 3, 256, 65_535] {
                o.push(op("crank", format!("crank {} limit {}", n, l), x.consume(mk, *l, us)));
                o.push(op("crank", format!("crank with authority {} limit {}", n, l), x.consume_perm(mk, *l, us)));
            }
        }
    }
    for (k, l, ix) in basis(x, mk, 0) {
        for n in 0..ix.data.len() {
            let mut i = ix.clone();
            i.data.truncate(n);
            o.push(op(k, format!("{} truncated to {}", l, n), i));
        }
        let mut i = ix.clone();
        i.data.push(0);
        o.push(op(k, format!("{} with a trailing byte", l), i));
        for b in 0..ix.data.len().min(8) {
            for v in (0..26u8).chain([127, 128, 255].iter().copied()) {
                let mut i = ix.clone();
                if i.data[b] == v {
                    continue;
                }
                i.data[b] = v;
                o.push(op(k, format!("{} with byte {} = {}", l, b, v), i));
            }
        }
    }
    // registration with every pair of bumps near the right ones, fresh and prefunded
    o
}

fn bumps(x: &X) -> Vec<Op> {
    let mut o = vec![];
    for n in 0..2 {
        for u in 0..2 {
            let ix = x.init(n, u);
            let (b, c) = (ix.data[1], ix.data[2]);
            for bb in (0..=255u8).filter(|v| *v == b || *v % 5 == 0 || *v > 240) {
                for cc in &[c, c.wrapping_add(1), c.wrapping_sub(1), 0, 255] {
                    let mut i = ix.clone();
                    i.data[1] = bb;
                    i.data[2] = *cc;
                    o.push(op("init", format!("registration with bumps {} {}", bb, cc), i.clone()));
                }
            }
            // the account at another bump's address does not belong to anyone
            let w = &x.w;
            for z in 0..w.keys.len() as Idx {
                for p in 1..ix.accs.len() {
                    let mut i = ix.clone();
                    i.accs[p] = z;
                    o.push(op("init", format!("registration with {} as {}", w.name(z), p), i.clone()));
                    i.signers = vec![];
                    o.push(op("init", format!("unsigned registration with {} as {}", w.name(z), p), i.clone()));
                    i.signers = vec![x.users[1 - u]];
                    o.push(op("init", format!("registration signed by the other with {} as {}", w.name(z), p), i.clone()));
                    i.signers = vec![x.users[0], x.users[1]];
                    o.push(op("init", format!("registration signed by both with {} as {}", w.name(z), p), i));
                }
            }
        }
    }
    o
}

pub fn scenario(name: &str, _thorough: bool) -> Option<Vec<Scn>> {
    let one = |s: Scn| Some(vec![s]);
    match name {
        "proxy" | "proxy:crank" => {
            let c = name == "proxy:crank";
            let x = build(c);
            let o = sequence_ops(&x, c, 0);
            one(x.scn(name, o))
        }
        // the same from a market with orders, fills and undelivered events
        "proxy:rich" => {
            let mut x = build(false);
            x.rich();
            let o = sequence_ops(&x, false, 0);
            one(x.scn(name, o))
        }
        // large coin lots, small price lots
        "proxy:lots" => {
            let mut x = build(false);
            let o = sequence_ops(&x, false, 1);
            let mut v = vec![x.clone().scn(name, o)];
            x.rich();
            let o = sequence_ops(&x, false, 1);
            v.push(x.scn("proxy:lots rich", o));
            Some(v)
        }
        "proxy:auth" => {
            let mut v = vec![];
            for c in &[false, true] {
                let mut x = build(*c);
                x.rich();
                let o = substitution(&x);
 v.push(x.scn(&format!("{} {}", name, c), o));
            }
            // registered users without orders or funds, and users not yet registered
            for reg in 0..2 {
                let mut x = build(false);
                if reg == 1 {
                    for n in 0..2 {
                        for u in 0..2 {
                            let ix = x.init(n, u);
                            x.seat(&ix, false);
                        }
                    }
                }
                let o = substitution(&x);
                v.push(x.scn(&format!("{} idle {}", name, reg), o));
            }
            Some(v)
        }
        "proxy:auth2" => {
            let mut v = vec![];
            for rich in &[true, false] {
                let mut x = build(false);
                if *rich {
                    x.rich();
                } else {
                    for n in 0..2 {
                        for u in 0..2 {
                            let ix = x.init(n, u);
                            x.seat(&ix, false);
                        }
                    }
                }
                let o = pairs(&x);
                v.push(x.scn(&format!("{} {}", name, rich), o));
            }
            Some(v)
        }
        "proxy:wire" => {
            let mut v = vec![];
            for c in &[false, true] {
                let mut x = build(*c);
                x.rich();
                let o = wire(&x, 0);
                v.push(x.clone().scn(&format!("{} {}", name, c), o));
                let o = wire(&x, 1);
                v.push(x.scn(&format!("{} {} second market", name, c), o));
            }
            // lots and amounts beyond 32 bits
            for (cs, ps) in &[(1 << 34, 1), (1, 1 << 30), (1 << 34, 1 << 30)] {
                for mk in 0..2 {
                    let mut x = build_sized(false, *cs, *ps);
                    x.rich();
                    let o = wire(&x, mk);
                    v.push(x.scn(&format!("{} sized {} {} market {}", name, cs, ps, mk), o));
                }
            }
            Some(v)
        }
        "proxy:init" => {
            let mut v = vec![];
            let min = Rent::default().minimum_balance(OO_LEN);
            for lam in &[0u64, 1, min - 1, min, min + 7] {
                let mut x = build(false);
                for u in 0..2 {
                    let (i, j) = (x.m.oo[u] as usize, x.m2.oo[u] as usize);
                    x.w.st.accs[i].lam = *lam;
                    x.w.st.accs[j].lam = *lam;
                }
                let o = bumps(&x);
                v.push(x.scn(&format!("{} {}", name, lam), o));
            }
            Some(v)
        }
        _ => None,
    }
}
