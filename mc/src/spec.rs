//! Operations, their wire encoding, and the reference specification ("boring" order book and
//! ledger) that every executed transition of the real program is compared with.
use crate::abs::*;
use crate::world::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Side {
    Bid,
    Ask,
}
pub use Side::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ty {
    Limit,
    Ioc,
    Post,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Stb {
    Dec,
    CancelProvide,
    Abort,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct New {
    pub side: Side,
    pub price: u64,
    pub qty: u64,
    pub pc: u64,
    pub ty: Ty,
    pub stb: Stb,
    pub cid: u64,
    pub limit: u16,
    pub ts: i64,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Take {
    pub side: Side,
    pub price: u64,
    pub qty: u64,
    pub pc: u64,
    pub min_coin: u64,
    pub min_pc: u64,
    pub limit: u16,
}

pub type U = usize;

/// Operation alphabet (symbolic; resolved against the current abstract state).
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Op {
    New(U, New),
    /// order with an explicit fee-discount account: (user, order, user whose (M)SRM account is shown)
    NewSrm(U, New, U),
    /// cancel the k-th resting order (in priority order) of the user on that side
    CancelNth(U, Side, usize),
    /// user tries to cancel the k-th resting order of another user
    CancelForeign(U, U, Side, usize),
    /// cancel k-th own resting order naming the wrong side
    CancelWrongSide(U, Side, usize),
    CancelCid(U, u64),
    CancelCids(U, Vec<u64>),
    Replace(U, New),
    Replaces(U, Vec<New>),
    Take(U, Take),
    TakeSrm(U, Take, U),
    /// crank with the open orders accounts of the users in the mask
    Consume(u16, u32),
    ConsumePerm(u16, u32),
    Settle(U),
    SettleRef(U),
    Sweep,
    Disable,
    Close(U),
    /// close with the rent going to the owner, a new account, a token wallet, another trader, the market
    CloseTo(U, u8),
    InitOo(U),
    InitOoAuth(U),
    Prune(U, u16),
    Clock(i64),
    /// an instruction with everything spelled out
    Raw(Kind, Ix),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Kind {
    New(New),
    CancelId(Side, u128),
    CancelCid(u64),
    CancelCids(Vec<u64>),
    Replaces(Vec<New>, bool),
    Take(Take),
    Consume(u16),
    ConsumePerm(u16),
    Settle,
    Sweep,
    Disable,
    Close,
    InitOo,
    Prune(u16),
    Match,
    Clock(i64),
}

impl Kind {
    /// position of the market account in an instruction with n accounts
    pub fn market_pos(&self, n: usize) -> Option<usize> {
        match self {
            Kind::Clock(_) => None,
            Kind::Close => Some(3),
            Kind::InitOo => Some(2),
            Kind::Consume(_) => n.checked_sub(4),
            Kind::ConsumePerm(_) => n.checked_sub(3),
            _ => Some(0),
        }
    }
    pub fn name(&self) -> &'static str {
        match self {
            Kind::New(_) => "new",
            Kind::CancelId(..) => "cancel",
            Kind::CancelCid(_) => "cancel_cid",
            Kind::CancelCids(_) => "cancel_cids",
            Kind::Replaces(..) => "replace",
            Kind::Take(_) => "take",
            Kind::Consume(_) => "consume",
            Kind::ConsumePerm(_) => "consume_perm",
            Kind::Settle => "settle",
            Kind::Sweep => "sweep",
            Kind::Disable => "disable",
            Kind::Close => "close",
            Kind::InitOo => "init_oo",
            Kind::Prune(_) => "prune",
            Kind::Match => "match",
            Kind::Clock(_) => "clock",
        }
    }
}

fn hdr(d: u32) -> Vec<u8> {
    let mut v = vec![0u8];
    v.extend_from_slice(&d.to_le_bytes());
    v
}
pub fn enc_new_body(n: &New) -> Vec<u8> {
    let mut v = vec![];
    v.extend_from_slice(&(if n.side == Bid { 0u32 } else { 1 }).to_le_bytes());
    v.extend_from_slice(&n.price.to_le_bytes());
    v.extend_from_slice(&n.qty.to_le_bytes());
    v.extend_from_slice(&n.pc.to_le_bytes());
    v.extend_from_slice(&(n.stb as u32).to_le_bytes());
    v.extend_from_slice(&(n.ty as u32).to_le_bytes());
    v.extend_from_slice(&n.cid.to_le_bytes());
    v.extend_from_slice(&n.limit.to_le_bytes());
    v.extend_from_slice(&n.ts.to_le_bytes());
    v
}
pub fn encode(k: &Kind) -> Vec<u8> {
    match k {
        Kind::New(n) => {
            let mut v = hdr(10);
            let b = enc_new_body(n);
            // orders without an expiry use the short encoding
            let l = if n.ts == i64::MAX { 46 } else { 54 };
            v.extend_from_slice(&b[..l]);
            v
        }
        Kind::CancelId(s, id) => {
            let mut v = hdr(11);
            v.extend_from_slice(&(if *s == Bid { 0u32 } else { 1 }).to_le_bytes());
            v.extend_from_slice(&id.to_le_bytes());
            v
        }
        Kind::CancelCid(c) => {
            let mut v = hdr(12);
            v.extend_from_slice(&c.to_le_bytes());
            v
        }
        Kind::CancelCids(c) => {
            let mut v = hdr(18);
            for x in c {
                v.extend_from_slice(&x.to_le_bytes());
            }
            v
        }
        Kind::Replaces(n, single) => {
            if *single {
                let mut v = hdr(19);
                v.extend_from_slice(&enc_new_body(&n[0]));
                v
            } else {
                let mut v = hdr(20);
                v.extend_from_slice(&(n.len() as u64).to_le_bytes());
                for x in n {
                    v.extend_from_slice(&enc_new_body(x));
                }
                v
            }
        }
        Kind::Take(t) => {
            let mut v = hdr(13);
            v.extend_from_slice(&(if t.side == Bid { 0u32 } else { 1 }).to_le_bytes());
            for x in &[t.price, t.qty, t.pc, t.min_coin, t.min_pc] {
                v.extend_from_slice(&x.to_le_bytes());
            }
            v.extend_from_slice(&t.limit.to_le_bytes());
            v
        }
        Kind::Consume(l) => {
            let mut v = hdr(3);
            v.extend_from_slice(&l.to_le_bytes());
            v
        }
        Kind::ConsumePerm(l) => {
            let mut v = hdr(17);
            v.extend_from_slice(&l.to_le_bytes());
            v
        }
        Kind::Prune(l) => {
            let mut v = hdr(16);
            v.extend_from_slice(&l.to_le_bytes());
            v
        }
        Kind::Match => {
            let mut v = hdr(2);
            v.extend_from_slice(&[1, 0]);
            v
        }
        Kind::Settle => hdr(5),
        Kind::Disable => hdr(7),
        Kind::Sweep => hdr(8),
        Kind::Close => hdr(14),
        Kind::InitOo => hdr(15),
        Kind::Clock(_) => vec![],
    }
}

impl Dex {
    fn ix(&self, k: &Kind, accs: Vec<Idx>, signers: Vec<Idx>, ro: Vec<Idx>) -> Ix {
        let mut readonly = ro;
        readonly.push(self.token);
        readonly.push(self.rent);
        readonly.push(self.m.vault_signer);
        Ix { data: encode(k), accs, signers, readonly }
    }
    pub fn sorted_oos(&self, mask: u32) -> Vec<Idx> {
        let mut v: Vec<Idx> = self.users.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|(_, u)| u.oo).collect();
        v.sort_by_key(|&i| {
            let b = self.w.key(i).to_bytes();
            let mut w = [0u64; 4];
            for j in 0..4 {
                let mut x = [0u8; 8];
                x.copy_from_slice(&b[8 * j..8 * j + 8]);
                w[j] = u64::from_le_bytes(x);
            }
            w
        });
        v
    }
    fn new_ix(&self, u: U, k: Kind, side: Side, srm: Option<Idx>) -> (Kind, Ix) {
        let (m, us) = (&self.m, &self.users[u]);
        let payer = if side == Bid { us.pc } else { us.coin };
        let mut a = vec![
            m.market, us.oo, m.req_q, m.event_q, m.bids, m.asks, payer, us.owner, m.coin_vault, m.pc_vault, self.token, self.rent,
        ];
        let mut ro = vec![us.owner];
        if let Some(s) = srm {
            a.push(s);
            ro.push(s);
        }
        let ix = self.ix(&k, a, vec![us.owner], ro);
        (k, ix)
    }
    fn take_ix(&self, u: U, k: Kind, srm: Option<Idx>) -> (Kind, Ix) {
        let (m, us) = (&self.m, &self.users[u]);
        let mut a = vec![
            m.market, m.req_q, m.event_q, m.bids, m.asks, us.coin, us.pc, us.owner, m.coin_vault, m.pc_vault, self.token, m.vault_signer,
        ];
        let mut ro = vec![us.owner];
        if let Some(s) = srm {
            a.push(s);
            ro.push(s);
        }
        let ix = self.ix(&k, a, vec![us.owner], ro);
        (k, ix)
    }
    fn cancel_ix(&self, u: U, k: Kind) -> (Kind, Ix) {
        let (m, us) = (&self.m, &self.users[u]);
        let ix = self.ix(&k, vec![m.market, m.bids, m.asks, us.oo, us.owner, m.event_q], vec![us.owner], vec![us.owner]);
        (k, ix)
    }

    /// Turns a symbolic operation into an instruction; None when it makes no sense here.
    pub fn resolve(&self, a: &Abs, op: &Op) -> Option<(Kind, Ix)> {
        let m = &self.m;
        Some(match op {
            Op::New(u, n) => self.new_ix(*u, Kind::New(*n), n.side, None),
            Op::NewSrm(u, n, s) => self.new_ix(*u, Kind::New(*n), n.side, Some(self.users[*s].srm)),
            Op::CancelNth(u, s, k) => {
                let b = if *s == Bid { &a.bids } else { &a.asks };
                let l = b.iter().filter(|l| l.owner == self.users[*u].oo).nth(*k)?;
                self.cancel_ix(*u, Kind::CancelId(*s, l.id))
            }
            Op::CancelForeign(u, v, s, k) => {
                let b = if *s == Bid { &a.bids } else { &a.asks };
                let l = b.iter().filter(|l| l.owner == self.users[*v].oo).nth(*k)?;
                self.cancel_ix(*u, Kind::CancelId(*s, l.id))
            }
            Op::CancelWrongSide(u, s, k) => {
                let b = if *s == Bid { &a.bids } else { &a.asks };
                let l = b.iter().filter(|l| l.owner == self.users[*u].oo).nth(*k)?;
                self.cancel_ix(*u, Kind::CancelId(if *s == Bid { Ask } else { Bid }, l.id))
            }
            Op::CancelCid(u, c) => self.cancel_ix(*u, Kind::CancelCid(*c)),
            Op::CancelCids(u, c) => self.cancel_ix(*u, Kind::CancelCids(c.clone())),
            Op::Replace(u, n) => self.new_ix(*u, Kind::Replaces(vec![*n], true), n.side, None),
            Op::Replaces(u, n) => {
                let side = n.first().map_or(Bid, |x| x.side);
                self.new_ix(*u, Kind::Replaces(n.clone(), false), side, None)
            }
            Op::Take(u, t) => self.take_ix(*u, Kind::Take(*t), None),
            Op::TakeSrm(u, t, s) => self.take_ix(*u, Kind::Take(*t), Some(self.users[*s].srm)),
            Op::Consume(l, mask) => {
                let mut v = self.sorted_oos(*mask);
                v.extend_from_slice(&[m.market, m.event_q, m.coin_vault, m.pc_vault]);
                let k = Kind::Consume(*l);
                let ix = self.ix(&k, v, vec![], vec![]);
                (k, ix)
            }
            Op::ConsumePerm(l, mask) => {
                let mut v = self.sorted_oos(*mask);
                let auth = m.crank_auth.or(m.prune_auth).or(m.oo_auth).unwrap_or(self.referrer);
                v.extend_from_slice(&[m.market, m.event_q, auth]);
                let k = Kind::ConsumePerm(*l);
                let ix = self.ix(&k, v, vec![auth], vec![auth]);
                (k, ix)
            }
            Op::Settle(u) | Op::SettleRef(u) => {
                let us = &self.users[*u];
                let mut v = vec![m.market, us.oo, us.owner, m.coin_vault, m.pc_vault, us.coin, us.pc, m.vault_signer, self.token];
                if let Op::SettleRef(_) = op {
                    v.push(self.referrer);
                }
                let k = Kind::Settle;
                let ix = self.ix(&k, v, vec![us.owner], vec![us.owner]);
                (k, ix)
            }
            Op::Sweep => {
                let k = Kind::Sweep;
                let ix = self.ix(
                    &k,
                    vec![m.market, m.pc_vault, self.sweeper, self.sweep_to, m.vault_signer, self.token],
                    vec![self.sweeper],
                    vec![self.sweeper],
                );
                (k, ix)
            }
            Op::Disable => {
                let k = Kind::Disable;
                let ix = self.ix(&k, vec![m.market, self.disabler], vec![self.disabler], vec![self.disabler]);
                (k, ix)
            }
            Op::Close(u) => {
                let us = &self.users[*u];
                let k = Kind::Close;
                let ix = self.ix(&k, vec![us.oo, us.owner, self.rent_dest, m.market], vec![us.owner], vec![us.owner, m.market]);
                (k, ix)
            }
            Op::CloseTo(u, n) => {
                let us = &self.users[*u];
                let dest = match n {
                    0 => us.owner,
                    1 => self.fresh,
                    2 => us.coin,
                    3 => self.users[1 - *u].owner,
                    4 => m.market,
                    5 => us.oo,
                    _ => self.users[1 - *u].oo,
                };
                let k = Kind::Close;
                let ix = self.ix(&k, vec![us.oo, us.owner, dest, m.market], vec![us.owner], vec![us.owner, m.market].into_iter().filter(|x| *x != dest).collect());
                (k, ix)
            }
            Op::InitOo(u) => {
                let us = &self.users[*u];
                let k = Kind::InitOo;
                let ix = self.ix(&k, vec![us.oo, us.owner, m.market, self.rent], vec![us.owner], vec![us.owner, m.market]);
                (k, ix)
            }
            Op::InitOoAuth(u) => {
                let us = &self.users[*u];
                let auth = m.oo_auth.unwrap_or(self.referrer);
                let k = Kind::InitOo;
                let ix = self.ix(
                    &k,
                    vec![us.oo, us.owner, m.market, self.rent, auth],
                    vec![us.owner, auth],
                    vec![us.owner, m.market, auth],
                );
                (k, ix)
            }
            Op::Prune(u, l) => {
                let us = &self.users[*u];
                let auth = m.prune_auth.or(m.oo_auth).unwrap_or(self.referrer);
                let k = Kind::Prune(*l);
                let ix = self.ix(&k, vec![m.market, m.bids, m.asks, auth, us.oo, us.owner, m.event_q], vec![auth], vec![auth, us.owner]);
                (k, ix)
            }
            Op::Clock(t) => {
                if a.clock == *t {
                    return None;
                }
                (Kind::Clock(*t), Ix { data: vec![], accs: vec![], signers: vec![], readonly: vec![] })
            }
            Op::Raw(k, ix) => (k.clone(), ix.clone()),
        })
    }
}

// ---------------------------------------------------------------------------------------------
// specification

pub type R<T> = Result<T, &'static str>;

/// taker rates in 1/100000
pub const RATES: [u128; 8] = [40, 39, 38, 36, 34, 32, 30, 10];

pub fn taker_fee(tier: u8, q: u128) -> u128 {
    let x = q * RATES[tier as usize];
    (x + 99_999) / 100_000
}
pub fn without_fee(tier: u8, q: u128) -> u128 {
    q * 100_000 / (100_000 + RATES[tier as usize])
}

pub struct Tok {
    pub mint: [u8; 32],
    pub owner: [u8; 32],
    pub bal: u64,
    pub delegate: Option<[u8; 32]>,
    pub delegated: u64,
}

pub struct Spec<'a> {
    pub d: &'a Dex,
    pub st: &'a St,
    pub ix: &'a Ix,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FillRec {
    pub maker: u128,
    pub qty: u64,
}

pub struct Match {
    pub ev: Vec<Ev>,
    pub coin_got: u128,   // lots
    pub coin_paid: u128,  // lots
    pub pc_got: u128,     // native, net of fees
    pub pc_paid: u128,    // native, incl fees
    pub coin_back: u128,  // lots returned
    pub pc_back: u128,    // native returned
    pub fees: u128,       // total taker fees
    pub rebate: u128,     // part reserved for the referrer
    pub fills: Vec<FillRec>,
}

struct Params {
    side: Side,
    price: u64,
    qty: u128,
    pc: u128,
    may_rest: bool,
    may_take: bool,
    stb: Stb,
    cid: u64,
    limit: u16,
    id: u128,
    owner: Option<Idx>, // None: send-take
    slot: u8,
    tier: u8,
}

impl<'a> Spec<'a> {
    fn acc(&self, n: usize) -> R<Idx> {
        self.ix.accs.get(n).copied().ok_or("missing account")
    }
    fn signer(&self, i: Idx) -> R<()> {
        if self.ix.signers.contains(&i) {
            Ok(())
        } else {
            Err("missing signature")
        }
    }
    fn tok(&self, i: Idx) -> R<Tok> {
        let a = &self.d.w.accs[i as usize];
        let b = self.d.w.data(self.st, i);
        if a.owner != spl_token::ID || b.len() != 165 || b[108] != 1 {
            return Err("not a token account");
        }
        let mut mint = [0u8; 32];
        mint.copy_from_slice(&b[..32]);
        let mut owner = [0u8; 32];
        owner.copy_from_slice(&b[32..64]);
        let mut del = [0u8; 32];
        del.copy_from_slice(&b[76..108]);
        let mut da = [0u8; 8];
        da.copy_from_slice(&b[121..129]);
        Ok(Tok {
            mint,
            owner,
            bal: tok_bal(b),
            delegate: if b[72] == 1 { Some(del) } else { None },
            delegated: u64::from_le_bytes(da),
        })
    }
    fn bytes(&self, i: Idx) -> [u8; 32] {
        self.d.w.key(i).to_bytes()
    }
    fn is(&self, i: Idx, want: Idx) -> R<()> {
        if i == want {
            Ok(())
        } else {
            Err("wrong account")
        }
    }
    fn market(&self, a: &Abs, i: Idx, allow_disabled: bool) -> R<()> {
        self.is(i, self.d.m.market)?;
        if a.flags & 128 != 0 && !allow_disabled {
            return Err("market disabled");
        }
        Ok(())
    }
    fn fee_tier(&self, owner: Idx, srm: Option<Idx>) -> R<u8> {
        let s = match srm {
            None => return Ok(if self.d.stable { 7 } else { 0 }),
            Some(s) => self.tok(s)?,
        };
        if s.owner != self.bytes(owner) {
            return Err("discount account of somebody else");
        }
        if self.d.stable {
            return Ok(7);
        }
        let srm = serum_dex::instruction::srm_token::ID.to_bytes();
        let msrm = serum_dex::instruction::msrm_token::ID.to_bytes();
        let one = 1_000_000u64;
        Ok(if s.mint == msrm {
            if s.bal >= 1 {
                6
            } else {
                0
            }
        } else if s.mint == srm {
            match s.bal {
                b if b >= 1_000_000 * one => 5,
                b if b >= 100_000 * one => 4,
                b if b >= 10_000 * one => 3,
                b if b >= 1_000 * one => 2,
                b if b >= 100 * one => 1,
                _ => 0,
            }
        } else {
            0
        })
    }
    /// moves tokens if `auth` may spend from `from`
    fn transfer(&self, a: &mut Abs, from: Idx, to: Idx, auth: Idx, amount: u128) -> R<()> {
        let f = self.tok(from)?;
        let t = self.tok(to)?;
        if f.mint != t.mint {
            return Err("mint mismatch");
        }
        let pf = self.d.tok_pos(from).ok_or("untracked")?;
        let pt = self.d.tok_pos(to).ok_or("untracked")?;
        if (a.tok[pf] as u128) < amount {
            return Err("insufficient funds");
        }
        let k = self.bytes(auth);
        if f.owner != k && !(f.delegate == Some(k) && f.delegated as u128 >= amount) {
            return Err("not the owner of the tokens");
        }
        a.tok[pf] -= amount as u64;
        a.tok[pt] = (a.tok[pt] as u128 + amount) as u64;
        Ok(())
    }

    fn oo_for(&self, a: &Abs, oo: Idx, owner: Option<Idx>) -> R<usize> {
        if self.d.w.accs[oo as usize].owner != self.d.w.prog {
            return Err("not a program account");
        }
        let n = a.oos.iter().position(|o| o.acc == oo).ok_or("not an open orders account")?;
        let o = &a.oos[n];
        if o.flags != 5 {
            return Err("not an initialized open orders account");
        }
        if o.market != self.d.m.market {
            return Err("other market");
        }
        if let Some(w) = owner {
            if o.owner != w {
                return Err("other owner");
            }
        }
        Ok(n)
    }
    /// initialises an untouched account when allowed
    fn oo_init(&self, a: &mut Abs, oo: Idx, owner: Idx, auth: Option<Idx>) -> R<()> {
        let n = match a.oos.iter().position(|o| o.acc == oo) {
            Some(n) => n,
            None => return Ok(()),
        };
        if a.oos[n].flags != 0 || self.d.w.accs[oo as usize].owner != self.d.w.prog {
            return Ok(());
        }
        if auth != self.d.m.oo_auth {
            return Err("open orders authority");
        }
        let need = solana_program::rent::Rent::default().minimum_balance(self.d.w.accs[oo as usize].len);
        if self.st.lam[oo as usize] < need {
            return Err("not rent exempt");
        }
        let o = &mut a.oos[n];
        o.flags = 5;
        o.market = self.d.m.market;
        o.owner = owner;
        Ok(())
    }

    /// The reference matching loop.
    fn matching(&self, a: &mut Abs, p: &Params) -> R<Match> {
        let (cl, pl) = (self.d.m.coin_lot as u128, self.d.m.pc_lot as u128);
        let mut r = Match {
            ev: vec![], coin_got: 0, coin_paid: 0, pc_got: 0, pc_paid: 0, coin_back: 0, pc_back: 0, fees: 0, rebate: 0, fills: vec![],
        };
        let bid = p.side == Bid;
        let mut qty = p.qty;
        let mut pc = p.pc; // native budget left (bids only)
        let mut steps = p.limit;
        let out = |still: u128, unlocked: u128| Ev {
            fill: false, maker: false, bid, release: false, slot: p.slot, tier: 0,
            released: unlocked as u64, paid: still as u64, fee: 0, id: p.id, owner: p.owner.unwrap_or(NOIDX), cid: p.cid,
        };
        let mut blocked = false; // something crosses but may not be traded with
        let mut dead = false;    // terminal Out already emitted
        loop {
            if qty == 0 || (bid && pc == 0) {
                blocked = true;
                break;
            }
            let book = if bid { &mut a.asks } else { &mut a.bids };
            let best = match book.first_mut() {
                None => break,
                Some(b) => b,
            };
            let px = best.price();
            let crosses = if bid { px <= p.price } else { px >= p.price };
            if !crosses {
                break;
            }
            if !p.may_take || steps == 0 {
                blocked = true;
                break;
            }
            let mut t = (best.qty as u128).min(qty);
            if bid {
                let affordable = without_fee(p.tier, pc) / pl / px as u128;
                t = t.min(affordable);
            }
            if t == 0 {
                blocked = true;
                break;
            }
            steps -= 1;
            let native = t * px as u128 * pl;
            if Some(best.owner) == p.owner {
                // trade against yourself
                let (gone, take) = match p.stb {
                    Stb::Abort => return Err("would self trade"),
                    Stb::Dec => (t, t),
                    Stb::CancelProvide => (best.qty as u128, 0),
                };
                let left = best.qty as u128 - gone;
                let unit = if bid { cl } else { px as u128 * pl };
                r.ev.push(Ev {
                    fill: false, maker: false, bid: !bid, release: true, slot: best.slot, tier: 0,
                    released: (gone * unit) as u64, paid: (left * unit) as u64, fee: 0, id: best.id, owner: best.owner, cid: best.cid,
                });
                best.qty = left as u64;
                if left == 0 {
                    book.remove(0);
                }
                qty -= take;
                if bid {
                    let unl = take * px as u128 * pl;
                    pc -= unl;
                    if qty == 0 || pc == 0 {
                        r.pc_back += unl + pc;
                        r.ev.push(out(0, unl + pc));
                        dead = true;
                        break;
                    }
                    r.pc_back += unl;
                    r.ev.push(out(pc, unl));
                } else {
                    r.coin_back += take;
                    r.ev.push(out(qty * cl, take * cl));
                    if qty == 0 {
                        dead = true;
                        break;
                    }
                }
                continue;
            }
            // a trade at the resting order's price
            r.fills.push(FillRec { maker: best.id, qty: t as u64 });
            let (mpaid, mgot) = if bid { (t * cl, native) } else { (native, t * cl) };
            r.ev.push(Ev {
                fill: true, maker: true, bid: !bid, release: false, slot: best.slot, tier: best.tier,
                released: mgot as u64, paid: mpaid as u64, fee: 0, id: best.id, owner: best.owner, cid: best.cid,
            });
            best.qty -= t as u64;
            if best.qty == 0 {
                r.ev.push(Ev {
                    fill: false, maker: false, bid: !bid, release: true, slot: best.slot, tier: 0,
                    released: 0, paid: 0, fee: 0, id: best.id, owner: best.owner, cid: best.cid,
                });
                book.remove(0);
            }
            qty -= t;
            let fee = taker_fee(p.tier, native);
            r.fees += fee;
            if p.owner.is_some() {
                r.rebate += fee / 5;
            }
            let (tpaid, tgot);
            if bid {
                pc -= native + fee;
                r.coin_got += t;
                r.pc_paid += native + fee;
                tpaid = native + fee;
                tgot = t * cl;
            } else {
                r.coin_paid += t;
                r.pc_got += native - fee;
                tpaid = t * cl;
                tgot = native - fee;
            }
            if p.owner.is_some() {
                r.ev.push(Ev {
                    fill: true, maker: false, bid, release: false, slot: p.slot, tier: p.tier,
                    released: tgot as u64, paid: tpaid as u64, fee: fee as u64, id: p.id, owner: p.owner.unwrap(), cid: p.cid,
                });
            }
        }
        if dead {
            return Ok(r);
        }
        if p.owner.is_none() {
            // send-take: nothing ever rests, nothing was deposited up front
            return Ok(r);
        }
        let leaf = |q: u128| Leaf { id: p.id, owner: p.owner.unwrap(), slot: p.slot, tier: p.tier, qty: q as u64, cid: p.cid };
        let rest = if p.may_rest && !blocked {
            if bid {
                qty.min(pc / pl / p.price as u128)
            } else {
                qty
            }
        } else {
            0
        };
        if bid {
            let keep = rest * p.price as u128 * pl;
            r.pc_back += pc - keep;
            r.ev.push(out(keep, pc - keep));
        } else if rest == 0 {
            r.coin_back += qty;
            r.ev.push(out(0, qty * cl));
        }
        if rest > 0 {
            let cap = (self.d.m.slab_nodes + 1) / 2;
            let book = if bid { &mut a.bids } else { &mut a.asks };
            if book.len() >= cap {
                // the book is full: the least aggressive resting order makes room
                let l = book.pop().unwrap();
                let unl = if bid { l.qty as u128 * l.price() as u128 * pl } else { l.qty as u128 * cl };
                r.ev.push(Ev {
                    fill: false, maker: false, bid, release: true, slot: l.slot, tier: 0,
                    released: unl as u64, paid: 0, fee: 0, id: l.id, owner: l.owner, cid: l.cid,
                });
            }
            let pos = book.iter().position(|l| if bid { l.id < p.id } else { l.id > p.id }).unwrap_or(book.len());
            book.insert(pos, leaf(rest));
        }
        Ok(r)
    }

    fn push(&self, a: &mut Abs, ev: Vec<Ev>) -> R<()> {
        if a.events.len() + ev.len() > self.d.m.ev_cap {
            return Err("event queue full");
        }
        a.ev_seq = a.ev_seq.wrapping_add(ev.len() as u64);
        a.events.extend(ev);
        Ok(())
    }

    fn next_id(a: &mut Abs, side: Side, price: u64) -> u128 {
        let s = a.seq;
        a.seq += 1;
        (price as u128) << 64 | (if side == Bid { !s } else { s }) as u128
    }

    fn new_order(&self, a: &mut Abs, n: &New, fills: &mut Vec<FillRec>) -> R<()> {
        let m = &self.d.m;
        if self.ix.accs.len() != 12 && self.ix.accs.len() != 13 {
            return Err("accounts");
        }
        if n.price == 0 || n.qty == 0 || n.pc == 0 {
            return Err("malformed");
        }
        self.market(a, self.acc(0)?, false)?;
        let oo = self.acc(1)?;
        self.is(self.acc(2)?, m.req_q)?;
        self.is(self.acc(3)?, m.event_q)?;
        self.is(self.acc(4)?, m.bids)?;
        self.is(self.acc(5)?, m.asks)?;
        let payer = self.acc(6)?;
        let owner = self.acc(7)?;
        self.signer(owner)?;
        self.is(self.acc(8)?, m.coin_vault)?;
        self.is(self.acc(9)?, m.pc_vault)?;
        self.is(self.acc(10)?, self.d.token)?;
        let tier = self.fee_tier(owner, self.ix.accs.get(12).copied())?;
        let pt = self.tok(payer)?;
        let want_mint = if n.side == Bid { m.pc_mint } else { m.coin_mint };
        if pt.mint != self.bytes(want_mint) {
            return Err("payer mint");
        }
        self.oo_init(a, oo, owner, None)?;
        let o = self.oo_for(a, oo, Some(owner))?;
        if n.ts < i64::MAX && a.clock > n.ts {
            return Err("expired");
        }
        let lock = if n.side == Bid { n.pc as u128 } else { n.qty as u128 * m.coin_lot as u128 };
        if lock > u64::MAX as u128 {
            return Err("overflow");
        }
        let free = if n.side == Bid { a.oos[o].pf } else { a.oos[o].cf } as u128;
        let used = lock.min(free);
        let deposit = lock - used;
        let vault = if n.side == Bid { m.pc_vault } else { m.coin_vault };
        {
            let x = &mut a.oos[o];
            if n.side == Bid {
                x.pf -= used as u64;
                x.pt = (x.pt as u128 + deposit) as u64;
                a.pc_dep = (a.pc_dep as u128 + deposit) as u64;
            } else {
                x.cf -= used as u64;
                x.ct = (x.ct as u128 + deposit) as u64;
                a.coin_dep = (a.coin_dep as u128 + deposit) as u64;
            }
        }
        if deposit > 0 {
            self.transfer(a, payer, vault, owner, deposit)?;
        }
        let id = Self::next_id(a, n.side, n.price);
        let slot = (0..128u8).find(|s| !a.oos[o].slots.iter().any(|x| x.slot == *s)).ok_or("too many open orders")?;
        a.oos[o].slots.push(Slot { slot, id, bid: n.side == Bid, cid: n.cid });
        let p = Params {
            side: n.side,
            price: n.price,
            qty: n.qty as u128,
            pc: n.pc as u128,
            may_rest: n.ty != Ty::Ioc,
            may_take: n.ty != Ty::Post,
            stb: n.stb,
            cid: n.cid,
            limit: n.limit,
            id,
            owner: Some(oo),
            slot,
            tier,
        };
        let r = self.matching(a, &p)?;
        let cl = m.coin_lot as u128;
        {
            let x = &mut a.oos[o];
            x.ct = (x.ct as u128 + r.coin_got * cl - r.coin_paid * cl) as u64;
            x.cf = (x.cf as u128 + r.coin_got * cl + r.coin_back * cl) as u64;
            x.pt = (x.pt as u128 + r.pc_got - r.pc_paid) as u64;
            x.pf = (x.pf as u128 + r.pc_got + r.pc_back) as u64;
        }
        a.pc_dep = (a.pc_dep as u128 - r.fees) as u64;
        a.pc_fees = (a.pc_fees as u128 + r.fees - r.rebate) as u64;
        a.rebates = (a.rebates as u128 + r.rebate) as u64;
        fills.extend(r.fills);
        self.push(a, r.ev)
    }

    fn take(&self, a: &mut Abs, t: &Take, fills: &mut Vec<FillRec>) -> R<()> {
        let m = &self.d.m;
        if self.ix.accs.len() != 12 && self.ix.accs.len() != 13 {
            return Err("accounts");
        }
        if t.price == 0 || t.qty == 0 || t.pc == 0 {
            return Err("malformed");
        }
        self.market(a, self.acc(0)?, false)?;
        self.is(self.acc(1)?, m.req_q)?;
        self.is(self.acc(2)?, m.event_q)?;
        self.is(self.acc(3)?, m.bids)?;
        self.is(self.acc(4)?, m.asks)?;
        let (cw, pw, who) = (self.acc(5)?, self.acc(6)?, self.acc(7)?);
        self.signer(who)?;
        self.is(self.acc(8)?, m.coin_vault)?;
        self.is(self.acc(9)?, m.pc_vault)?;
        self.is(self.acc(10)?, self.d.token)?;
        self.is(self.acc(11)?, m.vault_signer)?;
        let tier = self.fee_tier(who, self.ix.accs.get(12).copied())?;
        if self.tok(cw)?.mint != self.bytes(m.coin_mint) || self.tok(pw)?.mint != self.bytes(m.pc_mint) {
            return Err("wallet mint");
        }
        let id = Self::next_id(a, t.side, t.price);
        let p = Params {
            side: t.side,
            price: t.price,
            qty: t.qty as u128,
            pc: t.pc as u128,
            may_rest: false,
            may_take: true,
            stb: Stb::Abort,
            cid: 0,
            limit: t.limit,
            id,
            owner: None,
            slot: 0,
            tier,
        };
        let r = self.matching(a, &p)?;
        let cl = m.coin_lot as u128;
        fills.extend(r.fills);
        if t.side == Bid && r.coin_got < t.min_coin as u128 || t.side == Ask && r.pc_got < t.min_pc as u128 {
            return Err("minimum not met");
        }
        if t.side == Bid {
            self.transfer(a, pw, m.pc_vault, who, r.pc_paid)?;
            self.pay(a, m.coin_vault, cw, r.coin_got * cl)?;
        } else {
            self.transfer(a, cw, m.coin_vault, who, r.coin_paid * cl)?;
            self.pay(a, m.pc_vault, pw, r.pc_got)?;
        }
        a.coin_dep = (a.coin_dep as u128 + r.coin_paid * cl - r.coin_got * cl) as u64;
        a.pc_dep = (a.pc_dep as u128 + r.pc_paid - r.pc_got - r.fees) as u64;
        a.pc_fees = (a.pc_fees as u128 + r.fees) as u64;
        self.push(a, r.ev)
    }

    /// payment out of a vault by the program itself
    fn pay(&self, a: &mut Abs, vault: Idx, to: Idx, amount: u128) -> R<()> {
        self.transfer(a, vault, to, self.d.m.vault_signer, amount)
    }

    fn remove_resting(&self, a: &mut Abs, o: usize, side: Side, id: u128) -> R<Ev> {
        let m = &self.d.m;
        let book = if side == Bid { &mut a.bids } else { &mut a.asks };
        let n = book.iter().position(|l| l.id == id).ok_or("no such order")?;
        if book[n].owner != a.oos[o].acc {
            return Err("not your order");
        }
        let l = book.remove(n);
        let amt = if side == Bid { l.qty as u128 * l.price() as u128 * m.pc_lot as u128 } else { l.qty as u128 * m.coin_lot as u128 };
        let x = &mut a.oos[o];
        if side == Bid {
            x.pf = (x.pf as u128 + amt) as u64
        } else {
            x.cf = (x.cf as u128 + amt) as u64
        }
        Ok(Ev {
            fill: false, maker: false, bid: side == Bid, release: false, slot: l.slot, tier: 0,
            released: amt as u64, paid: 0, fee: 0, id, owner: l.owner, cid: l.cid,
        })
    }

    fn cancel_common(&self, a: &Abs, n: [usize; 6]) -> R<usize> {
        let m = &self.d.m;
        self.market(a, self.acc(n[0])?, true)?;
        self.is(self.acc(n[1])?, m.bids)?;
        self.is(self.acc(n[2])?, m.asks)?;
        self.is(self.acc(n[5])?, m.event_q)?;
        let owner = self.acc(n[4])?;
        self.signer(owner)?;
        self.oo_for(a, self.acc(n[3])?, Some(owner))
    }

    fn cancel_cids(&self, a: &mut Abs, n: [usize; 6], cids: &[u64]) -> R<()> {
        let o = self.cancel_common(a, n)?;
        let hit: Vec<(u128, Side)> = a.oos[o]
            .slots
            .iter()
            .filter(|s| s.cid != 0 && cids.contains(&s.cid))
            .map(|s| (s.id, if s.bid { Bid } else { Ask }))
            .collect();
        let mut ev = vec![];
        for (id, side) in hit {
            let rests = if side == Bid { &a.bids } else { &a.asks }.iter().any(|l| l.id == id);
            if rests {
                ev.push(self.remove_resting(a, o, side, id)?);
            }
        }
        self.push(a, ev)
    }

    fn consume(&self, a: &mut Abs, oos: &[Idx], limit: u16) -> R<()> {
        // the accounts are to be passed in ascending order; nothing is promised otherwise
        let key = |i: Idx| {
            let b = self.bytes(i);
            let mut w = [0u64; 4];
            for j in 0..4 {
                let mut x = [0u8; 8];
                x.copy_from_slice(&b[8 * j..8 * j + 8]);
                w[j] = u64::from_le_bytes(x);
            }
            w
        };
        if oos.windows(2).any(|w| key(w[0]) >= key(w[1])) {
            return Err("unspecified");
        }
        for _ in 0..limit {
            let e = match a.events.first() {
                None => break,
                Some(e) => e.clone(),
            };
            if !oos.contains(&e.owner) {
                break;
            }
            let o = self.oo_for(a, e.owner, None)?;
            let x = &mut a.oos[o];
            let sl = x.slots.iter().position(|s| s.id == e.id && s.slot == e.slot && s.bid == e.bid).ok_or("slot mismatch")?;
            let add = |v: &mut u64, d: u64| *v = v.wrapping_add(d);
            if e.fill {
                if e.maker {
                    if e.bid {
                        x.pt = x.pt.wrapping_sub(e.paid);
                        add(&mut x.ct, e.released);
                        add(&mut x.cf, e.released);
                        add(&mut x.pf, e.fee);
                    } else {
                        x.ct = x.ct.wrapping_sub(e.paid);
                        add(&mut x.pt, e.released);
                        add(&mut x.pf, e.released);
                    }
                } else {
                    add(&mut x.reb, e.fee / 5);
                }
            } else {
                if e.release {
                    if e.bid {
                        add(&mut x.pf, e.released)
                    } else {
                        add(&mut x.cf, e.released)
                    }
                }
                if e.paid == 0 {
                    x.slots.remove(sl);
                }
            }
            a.events.remove(0);
            a.ev_head = (a.ev_head + 1) % self.d.m.ev_cap as u64;
        }
        Ok(())
    }

    /// `real` is the abstract state the program produced (used only to resolve the one
    /// deliberately loose clause: which orders a partial prune picked).
    pub fn step(&self, pre: &Abs, k: &Kind, real: Option<&Abs>, fills: &mut Vec<FillRec>) -> R<Abs> {
        let m = &self.d.m;
        let mut a = pre.clone();
        let n = self.ix.accs.len();
        match k {
            Kind::Clock(t) => a.clock = *t,
            Kind::Match => (),
            Kind::New(x) => self.new_order(&mut a, x, fills)?,
            Kind::Take(t) => self.take(&mut a, t, fills)?,
            Kind::CancelId(side, id) => {
                if n < 6 {
                    return Err("accounts");
                }
                let o = self.cancel_common(&a, [0, 1, 2, 3, 4, 5])?;
                let e = self.remove_resting(&mut a, o, *side, *id)?;
                self.push(&mut a, vec![e])?;
            }
            Kind::CancelCid(c) => {
                if n < 6 || *c == 0 {
                    return Err("accounts");
                }
                let o = self.cancel_common(&a, [0, 1, 2, 3, 4, 5])?;
                let s = a.oos[o].slots.iter().find(|s| s.cid == *c).cloned().ok_or("unknown client id")?;
                let e = self.remove_resting(&mut a, o, if s.bid { Bid } else { Ask }, s.id)?;
                self.push(&mut a, vec![e])?;
            }
            Kind::CancelCids(c) => {
                if n < 6 {
                    return Err("accounts");
                }
                self.cancel_cids(&mut a, [0, 1, 2, 3, 4, 5], c)?
            }
            Kind::Replaces(v, _) => {
                if n < 8 {
                    return Err("accounts");
                }
                if v.iter().any(|x| x.price == 0 || x.qty == 0 || x.pc == 0) {
                    return Err("malformed");
                }
                let c: Vec<u64> = v.iter().map(|x| x.cid).collect();
                self.cancel_cids(&mut a, [0, 4, 5, 1, 7, 3], &c)?;
                for x in v {
                    self.new_order(&mut a, x, fills)?;
                }
            }
            Kind::Consume(l) => {
                if n < 5 {
                    return Err("accounts");
                }
                self.market(&a, self.acc(n - 4)?, true)?;
                if m.crank_auth.is_some() {
                    return Err("crank authority required");
                }
                self.is(self.acc(n - 3)?, m.event_q)?;
                self.consume(&mut a, &self.ix.accs[..n - 4], *l)?;
            }
            Kind::ConsumePerm(l) => {
                if n < 4 {
                    return Err("accounts");
                }
                self.market(&a, self.acc(n - 3)?, true)?;
                let auth = self.acc(n - 1)?;
                self.signer(auth)?;
                if m.crank_auth != Some(auth) {
                    return Err("crank authority");
                }
                self.is(self.acc(n - 2)?, m.event_q)?;
                self.consume(&mut a, &self.ix.accs[..n - 3], *l)?;
            }
            Kind::Settle => {
                if n != 9 && n != 10 {
                    return Err("accounts");
                }
                self.market(&a, self.acc(0)?, true)?;
                let owner = self.acc(2)?;
                self.signer(owner)?;
                self.is(self.acc(3)?, m.coin_vault)?;
                self.is(self.acc(4)?, m.pc_vault)?;
                let (cw, pw) = (self.acc(5)?, self.acc(6)?);
                if self.tok(cw)?.mint != self.bytes(m.coin_mint) || self.tok(pw)?.mint != self.bytes(m.pc_mint) {
                    return Err("wallet mint");
                }
                self.is(self.acc(7)?, m.vault_signer)?;
                self.is(self.acc(8)?, self.d.token)?;
                let referrer = self.ix.accs.get(9).copied();
                if let Some(r) = referrer {
                    if self.tok(r)?.mint != self.bytes(m.pc_mint) {
                        return Err("referrer mint");
                    }
                }
                let o = self.oo_for(&a, self.acc(1)?, Some(owner))?;
                let (c, p, reb) = (a.oos[o].cf, a.oos[o].pf, a.oos[o].reb);
                self.pay(&mut a, m.coin_vault, cw, c as u128)?;
                self.pay(&mut a, m.pc_vault, pw, p as u128)?;
                a.coin_dep = a.coin_dep.wrapping_sub(c);
                a.pc_dep = a.pc_dep.wrapping_sub(p);
                let x = &mut a.oos[o];
                x.cf = 0;
                x.pf = 0;
                x.ct -= c;
                x.pt -= p;
                x.reb = 0;
                a.rebates = a.rebates.wrapping_sub(reb);
                match referrer {
                    Some(r) if reb > 0 => self.pay(&mut a, m.pc_vault, r, reb as u128)?,
                    _ => a.pc_fees += reb,
                }
            }
            Kind::Sweep => {
                if n != 6 {
                    return Err("accounts");
                }
                self.market(&a, self.acc(0)?, false)?;
                self.is(self.acc(1)?, m.pc_vault)?;
                self.is(self.acc(2)?, self.d.sweeper)?;
                self.signer(self.d.sweeper)?;
                let to = self.acc(3)?;
                if self.tok(to)?.mint != self.bytes(m.pc_mint) {
                    return Err("receiver mint");
                }
                self.is(self.acc(4)?, m.vault_signer)?;
                self.is(self.acc(5)?, self.d.token)?;
                let f = a.pc_fees;
                a.pc_fees = 0;
                self.pay(&mut a, m.pc_vault, to, f as u128)?;
            }
            Kind::Disable => {
                if n != 2 {
                    return Err("accounts");
                }
                self.market(&a, self.acc(0)?, false)?;
                self.is(self.acc(1)?, self.d.disabler)?;
                self.signer(self.d.disabler)?;
                a.flags |= 128;
            }
            Kind::Close => {
                if n != 4 {
                    return Err("accounts");
                }
                let (oo, owner, dest) = (self.acc(0)?, self.acc(1)?, self.acc(2)?);
                self.signer(owner)?;
                self.market(&a, self.acc(3)?, true)?;
                let o = self.oo_for(&a, oo, Some(owner))?;
                let x = &mut a.oos[o];
                if !x.slots.is_empty() || x.ct != 0 || x.pt != 0 || x.reb != 0 {
                    return Err("account still in use");
                }
                if dest == oo {
                    return Err("destination is the account itself");
                }
                x.flags = 256;
                x.slots.clear();
                a.lam[dest as usize] += a.lam[oo as usize];
                a.lam[oo as usize] = 0;
            }
            Kind::InitOo => {
                if n != 4 && n != 5 {
                    return Err("accounts");
                }
                let (oo, owner) = (self.acc(0)?, self.acc(1)?);
                self.market(&a, self.acc(2)?, false)?;
                self.signer(owner)?;
                let auth = self.ix.accs.get(4).copied();
                if let Some(x) = auth {
                    self.signer(x)?;
                }
                self.oo_init(&mut a, oo, owner, auth)?;
                self.oo_for(&a, oo, Some(owner))?;
            }
            Kind::Prune(l) => {
                if n != 7 {
                    return Err("accounts");
                }
                self.market(&a, self.acc(0)?, false)?;
                self.is(self.acc(1)?, m.bids)?;
                self.is(self.acc(2)?, m.asks)?;
                let auth = self.acc(3)?;
                self.signer(auth)?;
                if m.prune_auth != Some(auth) {
                    return Err("prune authority");
                }
                let oo = self.acc(4)?;
                let o = self.oo_for(&a, oo, Some(self.acc(5)?))?;
                self.is(self.acc(6)?, m.event_q)?;
                let nodes = |b: &Vec<Leaf>| if b.is_empty() { 0 } else { 2 * b.len() - 1 };
                let all = *l as usize >= nodes(&a.bids) + nodes(&a.asks);
                let mut ev = vec![];
                let mut removed = 0usize;
                let mine = a.bids.iter().chain(a.asks.iter()).filter(|x| x.owner == oo).count();
                if real.is_none() && a.events.len() + mine.min(*l as usize) > m.ev_cap as usize {
                    // a partial prune may find more orders than the queue has room for
                    return Err("event queue full");
                }
                for &side in &[Bid, Ask] {
                    let b = if side == Bid { &a.bids } else { &a.asks };
                    let mine: Vec<u128> = b.iter().filter(|x| x.owner == oo).map(|x| x.id).collect();
                    for id in mine {
                        let gone = all
                            || match real {
                                Some(r) => !if side == Bid { &r.bids } else { &r.asks }.iter().any(|x| x.id == id),
                                None => false,
                            };
                        if gone {
                            removed += 1;
                            ev.push(self.remove_resting(&mut a, o, side, id)?);
                        }
                    }
                }
                if removed > *l as usize {
                    return Err("pruned more than the limit");
                }
                self.push(&mut a, ev)?;
            }
        }
        Ok(a)
    }
}

fn sorted_ev(v: &[Ev]) -> Vec<Ev> {
    let mut v = v.to_vec();
    v.sort_by_key(|e| (e.id, e.fill, e.maker, e.released, e.paid));
    v
}

/// Compares what the program did with what the specification says, aspect by aspect.
pub fn compare(d: &Dex, k: &Kind, pre: &Abs, want: &Abs, got: &Abs, want_fills: &[FillRec], out: &mut Vec<Finding>) {
    let mut f = |asp: Asp, s: String| out.push((asp, s));
    if want.bids != got.bids {
        let strip = |v: &Vec<Leaf>| v.iter().map(|l| (l.id, l.owner, l.qty, l.tier, l.cid)).collect::<Vec<_>>();
        if strip(&want.bids) != strip(&got.bids) {
            f(Asp::Book, format!("bids: expected {:?}, got {:?}", want.bids, got.bids));
        }
    }
    if want.asks != got.asks {
        let strip = |v: &Vec<Leaf>| v.iter().map(|l| (l.id, l.owner, l.qty, l.tier, l.cid)).collect::<Vec<_>>();
        if strip(&want.asks) != strip(&got.asks) {
            f(Asp::Book, format!("asks: expected {:?}, got {:?}", want.asks, got.asks));
        }
    }
    // events: prefix that was already queued is untouched (minus consumed), new ones as specified
    let norm = |e: &Ev| {
        let mut e = e.clone();
        e.slot = 0;
        e
    };
    let loose = matches!(k, Kind::Prune(_) | Kind::CancelCids(_));
    let (we, ge): (Vec<Ev>, Vec<Ev>) = (want.events.iter().map(norm).collect(), got.events.iter().map(norm).collect());
    let same = if loose { sorted_ev(&we) == sorted_ev(&ge) } else { we == ge };
    if !same {
        let n = we.iter().zip(ge.iter()).take_while(|(x, y)| x == y).count();
        f(Asp::Events, format!("event log differs at {}: expected {:?}, got {:?}", n, we.get(n), ge.get(n)));
    }
    if want.ev_seq != got.ev_seq {
        f(Asp::Events, format!("event sequence number {} expected {}", got.ev_seq, want.ev_seq));
    }
    if matches!(k, Kind::New(_) | Kind::Take(_) | Kind::Replaces(..)) && got.events.len() >= pre.events.len() {
        let lot = |e: &Ev| if e.bid { e.released } else { e.paid } / d.m.coin_lot.max(1);
        let gf: Vec<FillRec> = got.events[pre.events.len()..]
            .iter()
            .filter(|e| e.fill && e.maker)
            .map(|e| FillRec { maker: e.id, qty: lot(e) })
            .collect();
        if gf != want_fills {
            f(Asp::Fills, format!("trades: expected {:x?}, got {:x?}", want_fills, gf));
        }
        for e in got.events[pre.events.len()..].iter().filter(|e| e.fill && e.maker) {
            let px = (e.id >> 64) as u128;
            let (coin, pc) = if e.bid { (e.released, e.paid) } else { (e.paid, e.released) };
            if pc as u128 * d.m.coin_lot as u128 != coin as u128 * px * d.m.pc_lot as u128 {
                f(Asp::Fills, format!("trade with {:x} not at its price: {} coin for {} pc", e.id, coin, pc));
            }
        }
    }
    for (w, g) in want.oos.iter().zip(got.oos.iter()) {
        let nm = d.w.name(w.acc);
        if (w.cf, w.ct, w.pf, w.pt) != (g.cf, g.ct, g.pf, g.pt) {
            f(
                Asp::Ledger,
                format!(
                    "{}: coin free/total {}/{} pc free/total {}/{}, expected {}/{} and {}/{}",
                    nm, g.cf, g.ct, g.pf, g.pt, w.cf, w.ct, w.pf, w.pt
                ),
            );
        }
        if w.reb != g.reb {
            f(Asp::Rebate, format!("{}: referrer rebates {} expected {}", nm, g.reb, w.reb));
        }
        let strip = |o: &Oo| {
            let mut v: Vec<(u128, bool, u64)> = o.slots.iter().map(|s| (s.id, s.bid, s.cid)).collect();
            v.sort();
            v
        };
        if strip(w) != strip(g) {
            f(Asp::Slots, format!("{}: open orders {:x?}, expected {:x?}", nm, strip(g), strip(w)));
        }
        if (w.flags, w.market, w.owner) != (g.flags, g.market, g.owner) {
            f(Asp::Slots, format!("{}: flags/market/owner {:?}, expected {:?}", nm, (g.flags, g.market, g.owner), (w.flags, w.market, w.owner)));
        }
    }
    for (i, (w, g)) in want.tok.iter().zip(got.tok.iter()).enumerate() {
        if w != g {
            f(Asp::Tokens, format!("token account {}: balance {} expected {}", d.w.name(d.toks[i]), g, w));
        }
    }
    if want.lam != got.lam {
        f(Asp::Lamports, "lamports differ from the specification".into());
    }
    if (want.coin_dep, want.pc_dep) != (got.coin_dep, got.pc_dep) {
        f(Asp::Deposits, format!("deposit totals {:?} expected {:?}", (got.coin_dep, got.pc_dep), (want.coin_dep, want.pc_dep)));
    }
    if (want.coin_fees, want.pc_fees, want.rebates) != (got.coin_fees, got.pc_fees, got.rebates) {
        f(
            Asp::Fees,
            format!("fees/rebates {:?} expected {:?}", (got.coin_fees, got.pc_fees, got.rebates), (want.coin_fees, want.pc_fees, want.rebates)),
        );
    }
    if (want.flags, want.cfg) != (got.flags, got.cfg) {
        f(Asp::Config, format!("market flags/configuration changed ({:x} -> {:x})", want.flags, got.flags));
    }
    if (want.seq, want.req_cnt) != (got.seq, got.req_cnt) {
        // ids that do not advance would break time priority and the identity of orders
        f(if got.seq < want.seq { Asp::Seq } else { Asp::Config }, format!("order sequence {:?} expected {:?}", (got.seq, got.req_cnt), (want.seq, want.req_cnt)));
    }
}
