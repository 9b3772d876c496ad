//! Abstract view of the DEX, decoded from raw account bytes (the published account layout),
//! independently of the crate's own types, plus the state invariants.
use crate::world::*;
use solana_program::pubkey::Pubkey;

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Leaf {
    pub id: u128,
    pub owner: Idx,
    pub slot: u8,
    pub tier: u8,
    pub qty: u64,
    pub cid: u64,
}
impl Leaf {
    pub fn price(&self) -> u64 {
        (self.id >> 64) as u64
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ev {
    pub fill: bool,
    pub maker: bool,
    pub bid: bool,
    pub release: bool,
    pub slot: u8,
    pub tier: u8,
    pub released: u64,
    pub paid: u64,
    pub fee: u64,
    pub id: u128,
    pub owner: Idx,
    pub cid: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Slot {
    pub slot: u8,
    pub id: u128,
    pub bid: bool,
    pub cid: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Oo {
    pub acc: Idx,
    pub flags: u64,
    pub market: Idx,
    pub owner: Idx,
    pub cf: u64,
    pub ct: u64,
    pub pf: u64,
    pub pt: u64,
    pub reb: u64,
    pub slots: Vec<Slot>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Abs {
    pub flags: u64,
    pub coin_dep: u64,
    pub coin_fees: u64,
    pub pc_dep: u64,
    pub pc_fees: u64,
    pub rebates: u64,
    /// everything else in the market account (configuration)
    pub cfg: u128,
    pub seq: u64,
    pub req_cnt: u64,
    pub ev_head: u64,
    pub ev_seq: u64,
    pub events: Vec<Ev>,
    pub bids: Vec<Leaf>, // best first
    pub asks: Vec<Leaf>, // best first
    pub oos: Vec<Oo>,
    /// balances of the tracked token accounts, by position in `Dex::toks`
    pub tok: Vec<u64>,
    pub lam: Vec<u64>,
    pub clock: i64,
}

#[derive(Clone)]
pub struct Mkt {
    pub market: Idx,
    pub req_q: Idx,
    pub event_q: Idx,
    pub bids: Idx,
    pub asks: Idx,
    pub coin_vault: Idx,
    pub pc_vault: Idx,
    pub coin_mint: Idx,
    pub pc_mint: Idx,
    pub vault_signer: Idx,
    pub nonce: u64,
    pub coin_lot: u64,
    pub pc_lot: u64,
    pub ev_cap: usize,
    pub slab_nodes: usize,
    pub oo_auth: Option<Idx>,
    pub prune_auth: Option<Idx>,
    pub crank_auth: Option<Idx>,
}

#[derive(Clone)]
pub struct User {
    pub owner: Idx,
    pub oo: Idx,
    pub coin: Idx,
    pub pc: Idx,
    pub srm: Idx,
}

#[derive(Clone)]
pub struct Dex {
    pub w: World,
    pub m: Mkt,
    pub users: Vec<User>,
    pub token: Idx,
    pub rent: Idx,
    pub sweeper: Idx,
    pub sweep_to: Idx,
    pub disabler: Idx,
    pub referrer: Idx,
    pub rent_dest: Idx,
    /// an account that does not exist yet
    pub fresh: Idx,
    pub toks: Vec<Idx>,
    pub oos: Vec<Idx>,
    pub m2: Option<Mkt>,
    /// the same world seen from the second market
    pub alt: Option<Box<Dex>>,
    pub stable: bool,
}

pub const NOIDX: Idx = 0xffff;

fn u64at(b: &[u8], o: usize) -> u64 {
    let mut x = [0u8; 8];
    x.copy_from_slice(&b[o..o + 8]);
    u64::from_le_bytes(x)
}
fn u32at(b: &[u8], o: usize) -> u32 {
    let mut x = [0u8; 4];
    x.copy_from_slice(&b[o..o + 4]);
    u32::from_le_bytes(x)
}
fn u128at(b: &[u8], o: usize) -> u128 {
    let mut x = [0u8; 16];
    x.copy_from_slice(&b[o..o + 16]);
    u128::from_le_bytes(x)
}

pub const EV_SIZE: usize = 88;
pub const NODE_SIZE: usize = 72;
pub const OO_SIZE: usize = 3216;
pub const MKT_SIZE: usize = 376;
pub const MKT2_SIZE: usize = 376 + 96 + 992;

/// Walks the raw bytes of an order book slab, checks that they form a proper search tree plus free
/// list, and returns the leaves' node numbers in ascending key order.
pub fn walk_slab(nm: &str, s: &[u8]) -> Result<Vec<usize>, String> {
    let bump = u64at(s, 0) as usize;
    let free_len = u64at(s, 8) as usize;
    let free_head = u32at(s, 16);
    let root = u32at(s, 20);
    let leaves = u64at(s, 24) as usize;
    let nodes = &s[32..];
    let cap = nodes.len() / NODE_SIZE;
    if bump > cap {
        return Err(format!("{}: bump index {} beyond capacity {}", nm, bump, cap));
    }
    let mut out: Vec<usize> = Vec::with_capacity(leaves.min(cap));
    let mut used = 0usize;
    if leaves > 0 {
        // (handle, known prefix mask length, prefix key)
        let mut stack: Vec<(u32, u32, u128)> = vec![(root, 0, 0)];
        while let Some((h, plen, pkey)) = stack.pop() {
            used += 1;
            if used > cap || h as usize >= bump {
                return Err(format!("{}: tree is not a tree (handle {})", nm, h));
            }
            let n = &nodes[h as usize * NODE_SIZE..(h as usize + 1) * NODE_SIZE];
            let key = u128at(n, 8);
            let mask = if plen == 0 { 0 } else { !0u128 << (128 - plen) };
            if (key ^ pkey) & mask != 0 {
                return Err(format!("{}: node {} not under its prefix", nm, h));
            }
            match u32at(n, 0) {
                1 => {
                    let p = u32at(n, 4);
                    if p < plen || p > 127 {
                        return Err(format!("{}: inner node prefix {} under {}", nm, p, plen));
                    }
                    let bit = 1u128 << (127 - p);
                    let hi_mask = if p == 0 { 0 } else { !0u128 << (128 - p) };
                    let base = key & hi_mask;
                    // children[1] pushed first so that leaves come out in ascending order
                    stack.push((u32at(n, 28), p + 1, base | bit));
                    stack.push((u32at(n, 24), p + 1, base));
                }
                2 => {
                    out.push(h as usize);
                }
                t => return Err(format!("{}: node {} in the tree has tag {}", nm, h, t)),
            }
        }
    }
    if out.len() != leaves {
        return Err(format!("{}: leaf count {} but {} leaves reachable", nm, leaves, out.len()));
    }
    // free list
    let mut h = free_head;
    for i in 0..free_len {
        if h as usize >= bump {
            return Err(format!("{}: free list leaves the slab", nm));
        }
        let n = &nodes[h as usize * NODE_SIZE..(h as usize + 1) * NODE_SIZE];
        let want = if i + 1 == free_len { 4 } else { 3 };
        if u32at(n, 0) != want {
            return Err(format!("{}: free node {} has tag {}", nm, h, u32at(n, 0)));
        }
        h = u32at(n, 4);
    }
    if used + free_len != bump {
        return Err(format!("{}: {} used + {} free != {} allocated", nm, used, free_len, bump));
    }
    for w in out.windows(2) {
        if u128at(nodes, w[0] * NODE_SIZE + 8) >= u128at(nodes, w[1] * NODE_SIZE + 8) {
            return Err(format!("{}: keys out of order", nm));
        }
    }
    Ok(out)
}

pub fn tok_bal(d: &[u8]) -> u64 {
    u64at(d, 64)
}

impl Dex {
    pub fn idx_of(&self, k: &[u8]) -> Idx {
        *self.w.by_key.get(&Pubkey::new(k)).unwrap_or(&NOIDX)
    }

    fn read_slab(&self, st: &St, acc: Idx, flag: u64, bid: bool) -> Result<Vec<Leaf>, String> {
        let d = self.w.data(st, acc);
        let nm = self.w.name(acc);
        if &d[..5] != b"serum" || &d[d.len() - 7..] != b"padding" {
            return Err(format!("{}: account padding damaged", nm));
        }
        let d = &d[5..d.len() - 7];
        if u64at(d, 0) != flag {
            return Err(format!("{}: flags {:x}", nm, u64at(d, 0)));
        }
        let s = &d[8..];
        let mut out: Vec<Leaf> = walk_slab(nm, s)?
            .into_iter()
            .map(|h| {
                let n = &s[32 + h * NODE_SIZE..32 + (h + 1) * NODE_SIZE];
                Leaf { id: u128at(n, 8), owner: self.idx_of(&n[24..56]), slot: n[4], tier: n[5], qty: u64at(n, 56), cid: u64at(n, 64) }
            })
            .collect();
        if bid {
            out.reverse();
        }
        Ok(out)
    }

    pub fn read_oo(&self, st: &St, acc: Idx) -> Result<Oo, String> {
        let d0 = self.w.data(st, acc);
        let d = &d0[5..d0.len() - 7];
        let free = u128at(d, 104);
        let isbid = u128at(d, 120);
        let flags = u64at(d, 0);
        let mut slots = vec![];
        if flags == 5 {
            if &d0[..5] != b"serum" || &d0[d0.len() - 7..] != b"padding" {
                return Err(format!("{}: account padding damaged", self.w.name(acc)));
            }
            let mut bits = !free;
            while bits != 0 {
                let s = bits.trailing_zeros() as usize;
                bits &= bits - 1;
                slots.push(Slot {
                    slot: s as u8,
                    id: u128at(d, 136 + 16 * s),
                    bid: isbid >> s & 1 == 1,
                    cid: u64at(d, 136 + 2048 + 8 * s),
                });
            }
        }
        Ok(Oo {
            acc,
            flags,
            market: self.idx_of(&d[8..40]),
            owner: self.idx_of(&d[40..72]),
            cf: u64at(d, 72),
            ct: u64at(d, 80),
            pf: u64at(d, 88),
            pt: u64at(d, 96),
            reb: u64at(d, 3208),
            slots,
        })
    }

    pub fn decode(&self, st: &St) -> Result<Abs, String> {
        let m = &self.m;
        let d0 = self.w.data(st, m.market);
        if &d0[..5] != b"serum" || &d0[d0.len() - 7..] != b"padding" {
            return Err("market: account padding damaged".into());
        }
        let d = &d0[5..d0.len() - 7];
        let word = |i: usize| u64at(d, 8 * i);
        let mut h = Hasher2::new();
        for i in 0..d.len() / 8 {
            match i {
                0 | 18 | 19 | 24 | 25 | 46 => (),
                _ => h.word(word(i)),
            }
        }
        let cfg = h.fin();
        let r = self.w.data(st, m.req_q);
        let r = &r[5..];
        let e0 = self.w.data(st, m.event_q);
        let e = &e0[5..e0.len() - 7];
        if u64at(r, 0) != 9 || u64at(e, 0) != 17 {
            return Err("queue account flags damaged".into());
        }
        let (head, cnt, eseq) = (u64at(e, 8), u64at(e, 16), u64at(e, 24));
        let cap = (e.len() - 32) / EV_SIZE;
        if cnt as usize > cap || (head as usize) >= cap {
            return Err(format!("event queue head {} count {} capacity {}", head, cnt, cap));
        }
        let mut events = Vec::with_capacity(cnt as usize);
        for i in 0..cnt as usize {
            let o = 32 + ((head as usize + i) % cap) * EV_SIZE;
            let b = &e[o..o + EV_SIZE];
            let f = b[0];
            if f & 3 != 1 && f & 3 != 2 || f & 0xe0 != 0 {
                return Err(format!("event {} has flags {:x}", i, f));
            }
            events.push(Ev {
                fill: f & 1 != 0,
                bid: f & 4 != 0,
                maker: f & 8 != 0,
                release: f & 16 != 0,
                slot: b[1],
                tier: b[2],
                released: u64at(b, 8),
                paid: u64at(b, 16),
                fee: u64at(b, 24),
                id: u128at(b, 32),
                owner: self.idx_of(&b[48..80]),
                cid: u64at(b, 80),
            });
        }
        let bids = self.read_slab(st, m.bids, 33, true)?;
        let asks = self.read_slab(st, m.asks, 65, false)?;
        let mut oos = Vec::with_capacity(self.oos.len());
        for &o in &self.oos {
            oos.push(self.read_oo(st, o)?);
        }
        Ok(Abs {
            flags: word(0),
            coin_dep: word(18),
            coin_fees: word(19),
            pc_dep: word(24),
            pc_fees: word(25),
            rebates: word(46),
            cfg,
            seq: u64at(r, 24),
            req_cnt: u64at(r, 16),
            ev_head: head,
            ev_seq: eseq,
            events,
            bids,
            asks,
            oos,
            tok: self.toks.iter().map(|&t| tok_bal(self.w.data(st, t))).collect(),
            lam: st.lam.clone(),
            clock: st.clock,
        })
    }

    pub fn tok_pos(&self, acc: Idx) -> Option<usize> {
        self.toks.iter().position(|&t| t == acc)
    }
}

/// Which part of the observable state a finding is about.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Asp {
    Result,   // accepted / rejected
    Fills,    // who traded with whom, how much, at which price
    Book,     // resting orders
    Events,   // event log content / order
    Ledger,   // open orders balances (free / total)
    Rebate,   // open orders referrer rebates
    Slots,    // open orders slot table
    Tokens,   // token balances
    Lamports, // lamports
    Deposits, // market deposit totals
    Fees,     // market fee counters
    Config,   // market configuration, flags, sequence numbers
    Seq,      // order ids advance
    Foreign,  // anything outside the accounts of the instruction
    // invariants
    Solvent,   // vault >= deposits + fees + rebates
    Surplus,   // ... and nothing is left over that nobody owns
    Claims,    // deposits == sum of claims
    Locked,    // locked part of each account is backed by its orders
    SlotMap,   // orders <-> slots
    Tree,      // order book storage well-formed
    Uncrossed, // best bid < best ask
    RebateSum, // market rebates == claimable rebates
    Exit,      // funds can always be withdrawn
    Crank,     // event delivery is schedule independent
}

pub type Finding = (Asp, String);

impl Dex {
    /// State invariants that must hold in every reachable state.
    pub fn invariants(&self, a: &Abs, out: &mut Vec<Finding>) {
        let m = &self.m;
        let bal = |i: Idx| a.tok[self.tok_pos(i).unwrap()] as i128;
        let cv = bal(m.coin_vault);
        let pv = bal(m.pc_vault);
        let short = |have: i128, owe: i128| if have < owe { Asp::Solvent } else { Asp::Surplus };
        let owe_c = a.coin_dep as i128 + a.coin_fees as i128;
        let owe_p = a.pc_dep as i128 + a.pc_fees as i128 + a.rebates as i128;
        if cv != owe_c {
            out.push((short(cv, owe_c), format!("coin vault holds {} but the market owes {} (+{} fees)", cv, a.coin_dep, a.coin_fees)));
        }
        if pv != owe_p {
            out.push((
                short(pv, owe_p),
                format!("pc vault holds {} but the market owes {} deposits + {} fees + {} rebates", pv, a.pc_dep, a.pc_fees, a.rebates),
            ));
        }
        // pending claims carried by undelivered events
        let (mut coin, mut pc, mut reb) = (0i128, 0i128, 0i128);
        for e in &a.events {
            if e.fill && e.maker {
                if e.bid {
                    pc -= e.paid as i128;
                    coin += e.released as i128;
                } else {
                    coin -= e.paid as i128;
                    pc += e.released as i128;
                }
            } else if e.fill {
                reb += (e.fee / 5) as i128;
            }
        }
        for o in &a.oos {
            if o.flags == 5 && o.market == m.market {
                coin += o.ct as i128;
                pc += o.pt as i128;
                reb += o.reb as i128;
            }
        }
        if coin != a.coin_dep as i128 {
            out.push((Asp::Claims, format!("coin claims of all users {} != recorded deposits {}", coin, a.coin_dep)));
        }
        if pc != a.pc_dep as i128 {
            out.push((Asp::Claims, format!("pc claims of all users {} != recorded deposits {}", pc, a.pc_dep)));
        }
        if reb != a.rebates as i128 {
            out.push((Asp::RebateSum, format!("claimable referrer rebates {} != accrued rebates {}", reb, a.rebates)));
        }
        for o in &a.oos {
            if o.flags != 5 || o.market != m.market {
                continue;
            }
            let nm = self.w.name(o.acc);
            if o.cf > o.ct || o.pf > o.pt {
                out.push((Asp::Locked, format!("{}: free exceeds total ({}/{} coin, {}/{} pc)", nm, o.cf, o.ct, o.pf, o.pt)));
            }
            let (mut lc, mut lp) = (0i128, 0i128);
            for l in a.asks.iter().filter(|l| l.owner == o.acc) {
                lc += l.qty as i128 * m.coin_lot as i128;
            }
            for l in a.bids.iter().filter(|l| l.owner == o.acc) {
                lp += l.qty as i128 * l.price() as i128 * m.pc_lot as i128;
            }
            for e in a.events.iter().filter(|e| e.owner == o.acc) {
                if e.fill && e.maker {
                    if e.bid {
                        lp += e.paid as i128 + e.fee as i128
                    } else {
                        lc += e.paid as i128
                    }
                } else if !e.fill && e.release {
                    if e.bid {
                        lp += e.released as i128
                    } else {
                        lc += e.released as i128
                    }
                }
            }
            if lc != o.ct as i128 - o.cf as i128 || lp != o.pt as i128 - o.pf as i128 {
                out.push((
                    Asp::Locked,
                    format!(
                        "{}: locked coin {} / pc {} but its orders and undelivered events account for {} / {}",
                        nm,
                        o.ct as i128 - o.cf as i128,
                        o.pt as i128 - o.pf as i128,
                        lc,
                        lp
                    ),
                ));
            }
            // slots: every resting order has exactly one slot; a slot without a resting order has a
            // pending terminal event
            for (l, bid) in a.bids.iter().map(|l| (l, true)).chain(a.asks.iter().map(|l| (l, false))) {
                if l.owner == o.acc && !o.slots.iter().any(|s| s.slot == l.slot && s.id == l.id && s.bid == bid && s.cid == l.cid) {
                    out.push((Asp::SlotMap, format!("{}: resting order {:x} has no matching slot {}", nm, l.id, l.slot)));
                }
            }
            for s in &o.slots {
                let side = if s.bid { &a.bids } else { &a.asks };
                let rests = side.iter().any(|l| l.id == s.id && l.owner == o.acc && l.slot == s.slot);
                // the event that frees the slot is the last one naming the order
                let last = a.events.iter().filter(|e| e.owner == o.acc && e.id == s.id).last();
                let ends = a.events.iter().filter(|e| e.owner == o.acc && e.id == s.id && !e.fill && e.paid == 0).count();
                let terminal = matches!(last, Some(e) if !e.fill && e.paid == 0 && e.slot == s.slot);
                if rests && ends > 0 {
                    out.push((Asp::SlotMap, format!("{}: order {:x} still rests but its slot is about to be freed", nm, s.id)));
                }
                if !rests && !(terminal && ends == 1) {
                    out.push((Asp::SlotMap, format!("{}: slot {} (order {:x}) is held by no resting order and {} terminal events", nm, s.slot, s.id, ends)));
                }
                if o.slots.iter().filter(|t| t.id == s.id).count() != 1 {
                    out.push((Asp::SlotMap, format!("{}: order {:x} holds two slots", nm, s.id)));
                }
            }
            for e in a.events.iter().filter(|e| e.owner == o.acc) {
                if !o.slots.iter().any(|s| s.id == e.id && s.slot == e.slot && s.bid == e.bid) {
                    out.push((Asp::SlotMap, format!("{}: event for order {:x} slot {} does not match the slot table", nm, e.id, e.slot)));
                }
            }
        }
        for l in a.bids.iter().chain(a.asks.iter()) {
            if l.qty == 0 || l.price() == 0 {
                out.push((Asp::Tree, format!("resting order {:x} has quantity {}", l.id, l.qty)));
            }
            if !self.oos.contains(&l.owner) {
                out.push((Asp::SlotMap, format!("resting order {:x} belongs to no open orders account", l.id)));
            } else if !a.oos.iter().any(|o| o.acc == l.owner && o.flags == 5) {
                out.push((Asp::SlotMap, format!("resting order {:x} belongs to a closed account", l.id)));
            }
        }
        for e in &a.events {
            if !a.oos.iter().any(|o| o.acc == e.owner && o.flags == 5) {
                out.push((Asp::SlotMap, format!("event for order {:x} belongs to no open account", e.id)));
            }
        }
        if let (Some(b), Some(s)) = (a.bids.first(), a.asks.first()) {
            if b.price() >= s.price() {
                out.push((Asp::Uncrossed, format!("book is crossed: bid {} >= ask {}", b.price(), s.price())));
            }
        }
        if a.req_cnt != 0 {
            out.push((Asp::Config, "request queue is not empty".into()));
        }
    }
}
