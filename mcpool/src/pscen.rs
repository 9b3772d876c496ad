//! Pool scenarios.
use crate::explore::*;
use crate::pool::*;
use crate::rt::*;
use solana_program::pubkey::Pubkey;
use solana_program::system_program;

#[derive(Clone)]
pub struct Cfg {
    pub admin: bool,
    pub custom: bool,
    pub vaults: Vec<u64>,
    pub supply: u64,
    pub fee: u32,
    pub user_assets: u64,
    pub second: bool,
    pub blank: bool,
    pub room: usize,
    /// account parameters the pool records
    pub params: usize,
}
impl Default for Cfg {
    fn default() -> Self {
        Cfg { admin: false, custom: false, vaults: vec![1_000, 777], supply: 300, fee: 2_500, user_assets: 5_000, second: false, blank: false, room: 64, params: 0 }
    }
}

/// one pool and its accounts
#[derive(Clone)]
pub struct P {
    pub prog: Pubkey,
    pub pool: Idx,
    pub mint: Idx,
    pub vaults: Vec<Idx>,
    pub auth: Idx,
    pub nonce: u8,
    pub lqd: Idx,
    pub init_fee: Idx,
    pub ptok: Vec<Idx>, // users' pool token accounts
    pub ref_tok: Idx,
    pub state: PState,
}
#[derive(Clone)]
pub struct U {
    pub w: World,
    pub spl: Idx,
    pub rent: Idx,
    pub retprog: Idx,
    pub retbuf: Idx,
    pub users: Vec<Idx>,
    pub initializer: Idx,
    pub feeown: Idx,
    pub refw: Idx,
    pub admin: Idx,
    pub mints: Vec<Idx>,
    pub atok: Vec<Vec<Idx>>, // [user][asset]
    pub p: P,
    pub p2: Option<P>,
    pub c: Cfg,
}

pub fn build(c: &Cfg) -> U {
    let mut w = World::new();
    let spl = w.program("token_program", spl_token::ID);
    w.program("simple_pool", simple_id());
    w.program("admin_pool", admin_id());
    let retprog = w.program("retbuf_program", retbuf_id());
    w.program("system", system_program::ID);
    if c.custom {
        w.program("custom_pool", custom_id());
    }
    let rent = w.rent();
    let retbuf = w.add("retbuf", mk_key(1, 1), retbuf_id(), 1_000_000_000, vec![0; 128]);
    let users: Vec<Idx> = (0..2).map(|i| w.wallet(&format!("user{}", i), mk_key(2, i))).collect();
    let initializer = w.wallet("initializer", mk_key(2, 10));
    let refw = w.wallet("referrer", mk_key(2, 11));
    let admin = w.wallet("admin", mk_key(2, 12));
    let feeown = w.wallet("fee_owner", fee_owner());
    for i in 0..c.params {
        w.wallet(&format!("param{}", i), mk_key(7, i as u64));
    }
    let na = c.vaults.len();
    // one more asset than the pool has
    let mints: Vec<Idx> = (0..na + 1).map(|i| w.mint(&format!("mint{}", i), mk_key(3, i as u64), Some(mk_key(3, 99)), 1 << 50)).collect();
    let mut atok = vec![];
    for (u, ui) in users.iter().enumerate() {
        let o = w.key(*ui);
        let mut v = vec![];
        for k in 0..na + 1 {
            let m = w.key(mints[k]);
            v.push(w.token(&format!("user{}_asset{}", u, k), mk_key(4, (u * 10 + k) as u64), m, o, c.user_assets));
        }
        atok.push(v);
    }
    let prog = if c.admin {
        admin_id()
    } else if c.custom {
        custom_id()
    } else {
        simple_id()
    };
    let p = pool(&mut w, c, prog, 0, &users, initializer, refw, admin, &mints);
    let p2 = if c.second { Some(pool(&mut w, &Cfg { vaults: c.vaults.iter().map(|x| x + 50).collect(), ..c.clone() }, prog, 1, &users, initializer, refw, admin, &mints)) } else { None };
    U { w, spl, rent, retprog, retbuf, users, initializer, feeown, refw, admin, mints, atok, p, p2, c: c.clone() }
}

fn pool(w: &mut World, c: &Cfg, prog: Pubkey, n: u64, users: &[Idx], initializer: Idx, refw: Idx, admin: Idx, mints: &[Idx]) -> P {
    let nm = if n == 0 { "".to_string() } else { format!("m{}_", n + 1) };
    let t = 20 + 10 * n;
    let pk = mk_key(t, 0);
    let (sk, nonce) = find_pda(&[pk.as_ref()], &prog);
    let auth = w.add(&format!("{}authority", nm), sk, system_program::ID, 0, vec![]);
    let mint = w.mint(&format!("{}pool_mint", nm), mk_key(t, 1), Some(sk), c.supply);
    let mk = w.key(mint);
    let vaults: Vec<Idx> = c
        .vaults
        .iter()
        .enumerate()
        .map(|(k, a)| {
            let m = w.key(mints[k]);
            w.token(&format!("{}vault{}", nm, k), mk_key(t + 1, k as u64), m, sk, *a)
        })
        .collect();
    let (ik, rk) = (w.key(initializer), w.key(refw));
    // the supply is in the hands of user 0, except a little for the others
    let part = c.supply / 10;
    let init_fee = w.token(&format!("{}initializer_fees", nm), mk_key(t, 2), mk, ik, part);
    let lqd = w.token(&format!("{}lqd_fees", nm), mk_key(t, 3), mk, fee_owner(), part);
    let ref_tok = w.token(&format!("{}referrer_tokens", nm), mk_key(t, 4), mk, rk, part);
    let mut ptok = vec![];
    for (u, ui) in users.iter().enumerate() {
        let o = w.key(*ui);
        let b = if u == 0 { c.supply - 4 * part } else if u == 1 { part } else { 0 };
        ptok.push(w.token(&format!("{}user{}_pool", nm, u), mk_key(t, 5 + u as u64), mk, o, b));
    }
    let state = PState {
        mint: mk,
        assets: vaults.iter().enumerate().map(|(k, v)| (w.key(mints[k]), w.key(*v))).collect(),
        signer: sk,
        nonce,
        params: (0..c.params).map(|i| (mk_key(7, i as u64), i % 2 == 1)).collect(),
        name: b"pool".to_vec(),
        lqd: w.key(lqd),
        init_fee: w.key(init_fee),
        fee: c.fee,
        admin: if c.admin { Some(w.key(admin)) } else { None },
        custom: if c.admin {
            custom(false)
        } else if c.custom {
            vec![0; 8]
        } else {
            vec![]
        },
    };
    let mut d = state.bytes();
    d.extend(std::iter::repeat(0).take(c.room));
    if c.blank {
        for b in d.iter_mut() {
            *b = 0;
        }
    }
    let pool = w.add(&format!("{}pool", nm), pk, prog, 1_000_000_000, d);
    P { prog, pool, mint, vaults, auth, nonce, lqd, init_fee, ptok, ref_tok, state }
}

impl U {
    pub fn roles(&self) -> Roles {
        let mut r = Roles { fee: vec![self.p.lqd, self.p.init_fee, self.p.ref_tok], pools: vec![self.p.pool], retbufs: vec![self.retbuf] };
        if let Some(p) = &self.p2 {
            r.fee.extend_from_slice(&[p.lqd, p.init_fee, p.ref_tok]);
            r.pools.push(p.pool);
        }
        r
    }
    fn params(&self) -> Vec<Idx> {
        (0..self.c.params).map(|i| self.w.idx(&mk_key(7, i as u64)).unwrap()).collect()
    }
    fn head(&self, p: &P) -> Vec<Idx> {
        let mut a = vec![p.pool, p.mint];
        a.extend_from_slice(&p.vaults);
        a.push(p.auth);
        a
    }
    pub fn exec_ix(&self, u: usize, ptok: Idx, who: Idx, refr: Idx, act: Action) -> Ix {
        let p = &self.p;
        let mut a = self.head(p);
        a.push(ptok);
        a.extend_from_slice(&self.atok[u][..p.vaults.len()]);
        a.extend_from_slice(&[who, p.lqd, p.init_fee, refr, self.spl]);
        a.extend(self.params());
        Ix { prog: p.prog, data: Req::Exec(act).bytes(), accs: a, signers: vec![who] }
    }
    pub fn user(&self, u: usize, act: Action) -> Ix {
        self.exec_ix(u, self.p.ptok[u], self.users[u], self.p.ref_tok, act)
    }
    pub fn get(&self, act: Action) -> Ix {
        let mut a = self.head(&self.p);
        a.extend_from_slice(&[self.retbuf, self.retprog]);
        a.extend(self.params());
        Ix { prog: self.p.prog, data: Req::Get(act).bytes(), accs: a, signers: vec![] }
    }
    pub fn give(&self, from: Idx, to: Idx, who: Idx, n: u64) -> Ix {
        let mut d = vec![3u8];
        d.extend_from_slice(&n.to_le_bytes());
        Ix { prog: spl_token::ID, data: d, accs: vec![from, to, who], signers: vec![who] }
    }
    pub fn adm(&self, q: Adm, more: &[Idx]) -> Ix {
        let mut a = vec![self.p.pool, self.admin];
        a.extend_from_slice(more);
        Ix { prog: self.p.prog, data: q.bytes(), accs: a, signers: vec![self.admin] }
    }
    pub fn scn(self, name: &str, ops: Vec<Op>) -> Scn {
        let roles = self.roles();
        let init = self.w.st.clone();
        Scn { name: name.to_string(), w: self.w, init, ops, judge: Box::new(move |w, pre, ix, k, o, post| judge_pool(w, &roles, pre, ix, k, o, post)) }
    }
}

fn act_name(a: &Action) -> (&'static str, String) {
    match a {
        Action::Create(n) => ("create", format!("creates {}", n)),
        Action::Redeem(n) => ("redeem", format!("redeems {}", n)),
        Action::Swap(v) => ("swap", format!("swaps {:?}", v)),
    }
}

/// sequences of creations, redemptions, quotes and donations
fn trade(u: &U, sizes: &[u64], admin_sizes: bool) -> Vec<Op> {
    let mut o = vec![];
    for us in 0..2 {
        for &n in sizes {
            for a in &[Action::Create(n), Action::Redeem(n)] {
                let (k, l) = act_name(a);
                o.push(op(k, format!("user{} {}", us, l), u.user(us, a.clone())));
            }
        }
    }
    if !admin_sizes {
        for &n in &sizes[..sizes.len().min(3)] {
            for a in &[Action::Create(n), Action::Redeem(n)] {
                let (k, l) = act_name(a);
                // as their own referrer, from a fee account
                o.push(op(k, format!("user0 as own referrer {}", l), u.exec_ix(0, u.p.ptok[0], u.users[0], u.p.ptok[0], a.clone())));
                o.push(op(k, format!("initializer {}", l), u.exec_ix(0, u.p.init_fee, u.initializer, u.p.ref_tok, a.clone())));
                o.push(op(k, format!("fee owner {}", l), u.exec_ix(1, u.p.lqd, u.feeown, u.p.ref_tok, a.clone())));
            }
        }
        o.push(op("give", "donation to vault0", u.give(u.atok[0][0], u.p.vaults[0], u.users[0], 13)));
        o.push(op("give", "donation to vault1", u.give(u.atok[0][1], u.p.vaults[1], u.users[0], 1)));
        o.push(op("give", "pool tokens change hands", u.give(u.p.ptok[0], u.p.ptok[1], u.users[0], 5)));
    }
    for &n in &sizes[..sizes.len().min(4)] {
        o.push(op("quote", format!("quote create {}", n), u.get(Action::Create(n))));
        o.push(op("quote", format!("quote redeem {}", n), u.get(Action::Redeem(n))));
    }
    o.push(op("swap", "swap", u.user(0, Action::Swap(vec![1, 2]))));
    o.push(op("quote", "quote swap", u.get(Action::Swap(vec![1, 2]))));
    o
}

fn admin_ops(u: &U, wide: bool) -> Vec<Op> {
    let mut o = vec![];
    let a = |l: &str, i: Ix| op("admin", format!("admin: {}", l), i);
    o.push(a("pause", u.adm(Adm::Pause, &[])));
    o.push(a("unpause (both vaults)", u.adm(Adm::Unpause, &u.p.vaults)));
    o.push(a("unpause (no vault)", u.adm(Adm::Unpause, &[])));
    o.push(a("unpause (vault 0)", u.adm(Adm::Unpause, &u.p.vaults[..1])));
    o.push(a("unpause (vault 1)", u.adm(Adm::Unpause, &u.p.vaults[1..])));
    o.push(a("unpause (vaults swapped)", u.adm(Adm::Unpause, &[u.p.vaults[1], u.p.vaults[0]])));
    let x = u.w.idx(&mk_key(60, 0)).unwrap();
    o.push(a("unpause (three vaults)", u.adm(Adm::Unpause, &[u.p.vaults[0], u.p.vaults[1], x])));
    o.push(a("unpause (vaults 0 and new)", u.adm(Adm::Unpause, &[u.p.vaults[0], x])));
    for (k, v) in u.p.vaults.iter().chain(std::iter::once(&x)).enumerate() {
        for &n in if wide { &[0u64, 1, 40][..] } else { &[0u64, 40][..] } {
            o.push(a(&format!("approve {} of vault {}", n, k), u.adm(Adm::Approve(n), &[*v, u.users[1], u.p.auth, u.spl])));
        }
        o.push(a(&format!("add vault {}", k), u.adm(Adm::Add, &[*v])));
        o.push(a(&format!("remove vault {}", k), u.adm(Adm::Remove, &[*v])));
        // the delegate spends
        o.push(op("give", format!("delegate takes 40 of vault {}", k), u.give(*v, u.atok[1][k], u.users[1], 40)));
        o.push(op("give", format!("delegate takes 1 of vault {}", k), u.give(*v, u.atok[1][k], u.users[1], 1)));
    }
    if wide {
        for &f in &[0u32, 149, 150, 999_999, 1_000_000, u32::MAX] {
            o.push(a(&format!("fee {}", f), u.adm(Adm::Fee(f), &[])));
        }
        let mut i = u.adm(Adm::Admin, &[u.users[0]]);
        o.push(a("hand over unsigned", i.clone()));
        i.signers.push(u.users[0]);
        o.push(a("hand over", i));
        let mut i = u.adm(Adm::Pause, &[]);
        i.accs[1] = u.users[0];
        i.signers = vec![u.users[0]];
        o.push(op("admin", "user0 pauses", i.clone()));
        i.data = Adm::Fee(777).bytes();
        o.push(op("admin", "user0 sets the fee", i.clone()));
        i.data = Adm::Admin.bytes();
        i.accs.push(u.admin);
        i.signers.push(u.admin);
        o.push(op("admin", "user0 hands over", i));
    }
    o
}

/// every instruction with every account position replaced by every account of the universe
fn substitution(u: &mut U) -> Vec<Op> {
    let evil = mk_key(90, 0);
    u.w.program("evil_program", evil);
    if u.w.idx(&note_id()).is_none() {
        u.w.program("silent_program", note_id());
    }
    let (pm, sk) = (u.w.key(u.p.mint), u.p.state.signer);
    let (m0, u0) = (u.w.key(u.mints[0]), u.w.key(u.users[0]));
    let u1 = u.w.key(u.users[1]);
    let w = &mut u.w;
    let lam = 10_000_000_000;
    // look-alikes owned by a foreign program
    let st = u.p.state.clone();
    let pooldata = |s: &PState| {
        let mut d = s.bytes();
        d.extend(vec![0; 64]);
        d
    };
    w.add("forged_pool", mk_key(91, 0), evil, lam, pooldata(&PState { fee: 150, ..st.clone() }));
    w.add("forged_mint", mk_key(91, 1), evil, lam, mint_data(Some(sk), 5));
    w.add("forged_vault", mk_key(91, 2), evil, lam, token_data(&m0, &sk, 1 << 40));
    w.add("forged_pool_tokens", mk_key(91, 3), evil, lam, token_data(&pm, &u1, 1 << 40));
    w.add("forged_lqd", mk_key(91, 4), evil, lam, token_data(&pm, &fee_owner(), 5));
    w.add("forged_retbuf", mk_key(91, 5), evil, lam, vec![0; 64]);
    // genuine token accounts in odd hands
    w.token("other_vault", mk_key(92, 0), m0, sk, 400);
    w.token("other_lqd", mk_key(92, 1), pm, fee_owner(), 0);
    w.token("attacker_pool_tokens", mk_key(92, 2), pm, u1, 0);
    w.token("authority_pool_tokens", mk_key(92, 3), pm, sk, 0);
    w.token("other_mint_tokens", mk_key(92, 4), mk_key(92, 99), u1, 1 << 40);
    let mut d = token_data(&m0, &u0, 4_000);
    d[72] = 1;
    d[76..108].copy_from_slice(u1.as_ref());
    d[121..129].copy_from_slice(&2_000u64.to_le_bytes());
    w.add("user0_asset0_delegated_to_user1", mk_key(92, 5), spl_token::ID, lam, d);
    let mut d = token_data(&pm, &u0, 0);
    d[108] = 0;
    w.add("uninitialized_tokens", mk_key(92, 6), spl_token::ID, lam, d);
    let mut d = token_data(&pm, &u0, 0);
    d[108] = 2;
    w.add("frozen_tokens", mk_key(92, 7), spl_token::ID, lam, d);
    w.mint("other_mint_of_authority", mk_key(92, 8), Some(sk), 7);
    w.add("blank_pool", mk_key(92, 9), u.p.prog, lam, vec![0; 600]);
    w.add("empty_pool", mk_key(92, 12), u.p.prog, lam, vec![]);
    // a pool of the same program whose recorded parts are the first pool's, with another nonce
    w.add("damaged_pool", mk_key(92, 10), u.p.prog, lam, vec![7; 600]);
    // a pool in which the recorded signer is not derived from the pool
    w.add("foreign_signer_pool", mk_key(92, 11), u.p.prog, lam, pooldata(&st));
    let all: Vec<Idx> = (0..u.w.keys.len() as Idx).collect();
    let mut base: Vec<(&'static str, String, Ix)> = vec![];
    for a in &[Action::Create(100), Action::Redeem(100), Action::Swap(vec![1])] {
        let (k, l) = act_name(a);
        base.push((k, l, u.user(0, a.clone())));
        if k != "swap" {
            base.push((k, format!("initializer {}", act_name(a).1), u.exec_ix(0, u.p.init_fee, u.initializer, u.p.ref_tok, a.clone())));
        }
        base.push(("quote", format!("quote {}", act_name(a).1), u.get(a.clone())));
    }
    if u.c.admin {
        let x = u.w.idx(&mk_key(60, 0)).unwrap();
        for (q, more, extra) in vec![
            (Adm::Pause, vec![], None),
            (Adm::Unpause, u.p.vaults.clone(), None),
            (Adm::Approve(9), vec![u.p.vaults[0], u.users[1], u.p.auth, u.spl], None),
            (Adm::Add, vec![x], None),
            (Adm::Remove, vec![x], None),
            (Adm::Fee(1_000), vec![], None),
            (Adm::Admin, vec![u.users[1]], Some(u.users[1])),
        ] {
            let mut i = u.adm(q.clone(), &more);
            i.signers.extend(extra);
            base.push(("admin", format!("{:?}", q), i));
        }
    }
    let mut o = vec![];
    for (k, l, ix) in &base {
        for pos in 0..ix.accs.len() {
            for &r in &all {
                let mut i = ix.clone();
                i.accs[pos] = r;
                // the honest signer signs; and, as an attack, only the attacker does
                for &(s, add) in &[("", None), (" signed by user1 only", Some(u.users[1]))] {
                    let mut j = i.clone();
                    if let Some(x) = add {
                        j.signers = vec![x];
                    }
                    if u.w.fixed.contains(&r) && pos == 0 {
                        continue;
                    }
                    o.push(op(k, format!("{} with {} as account {}{}", l, u.w.name(r), pos, s), j));
                }
            }
        }
        for n in 0..=ix.accs.len() {
            let mut i = ix.clone();
            i.accs.truncate(n);
            o.push(op(k, format!("{} with {} accounts", l, n), i));
        }
        for n in [1usize, 2, 7, 20, 40] {
            for (at, x) in [u.users[1], u.p.mint, u.p.vaults[0]].iter().enumerate() {
                let mut i = ix.clone();
                i.accs.extend(std::iter::repeat(*x).take(n));
                o.push(op(k, format!("{} with {} more accounts ({})", l, n, at), i));
            }
        }
        let mut i = ix.clone();
        i.signers.clear();
        o.push(op(k, format!("{} unsigned", l), i));
        // the attacker acts for himself in the name of the victim
        if ix.accs.contains(&u.users[0]) {
            let mut i = ix.clone();
            for x in i.accs.iter_mut() {
                if *x == u.users[0] {
                    *x = u.users[1];
                }
            }
            i.signers = vec![u.users[1]];
            o.push(op(k, format!("{} by user1 from user0's accounts", l), i.clone()));
            for p in 0..i.accs.len() {
                for v in &u.atok[1] {
                    let mut j = i.clone();
                    j.accs[p] = *v;
                    o.push(op(k, format!("{} by user1 with {} as account {}", l, u.w.name(*v), p), j));
                }
            }
        }
        // everybody signs except those whose signature matters
        let rest: Vec<Idx> = ix.accs.iter().copied().chain(std::iter::once(u.users[1])).filter(|z| !ix.signers.contains(z) && *z != u.p.auth).collect();
        let mut i = ix.clone();
        i.signers = rest.clone();
        o.push(op(k, format!("{} signed by all others", l), i.clone()));
        for pos in 0..ix.accs.len() {
            for &r in &all {
                if ix.signers.contains(&r) || u.w.name(r).contains("authority") && !u.w.name(r).contains('_') {
                    continue;
                }
                let mut j = i.clone();
                j.accs[pos] = r;
                j.signers.push(r);
                o.push(op(k, format!("{} signed by all others and {} as account {}", l, u.w.name(r), pos), j));
            }
        }
        // malformed data
        for n in 0..ix.data.len() {
            let mut i = ix.clone();
            i.data.truncate(n);
            o.push(op(k, format!("{} truncated to {}", l, n), i));
        }
        for b in 0..ix.data.len().min(10) {
            for v in &[0u8, 1, 2, 3, 4, 5, 6, 7, 8, 127, 128, 255] {
                let mut i = ix.clone();
                if i.data[b] == *v {
                    continue;
                }
                i.data[b] = *v;
                o.push(op(k, format!("{} with byte {} = {}", l, b, v), i));
            }
        }
        let mut i = ix.clone();
        i.data.push(0);
        o.push(op(k, format!("{} with a trailing byte", l), i));
        // the pool program's other half
        let mut i = ix.clone();
        i.prog = if u.c.admin { simple_id() } else { admin_id() };
        o.push(op(k, format!("{} sent to the other program", l), i));
    }
    o
}

/// like `substitution` for pairs of positions, over the accounts worth pairing
fn pairs(u: &mut U) -> Vec<Op> {
    let _ = substitution(u); // adds the attacker's accounts
    let pick: Vec<Idx> = (0..u.w.keys.len() as Idx)
        .filter(|i| {
            let n = u.w.name(*i);
            n.starts_with("m2_") || n.starts_with("forged") || n.starts_with("user1") || n.starts_with("other") || n.starts_with("attacker") || n.starts_with("authority") || n.starts_with("vault")
        })
        .collect();
    let mut o = vec![];
    for a in &[Action::Create(100), Action::Redeem(100)] {
        let (k, l) = act_name(a);
        for (ix, s) in &[(u.user(0, a.clone()), "user0"), (u.user(1, a.clone()), "user1")] {
            for p in 0..ix.accs.len() {
                for q in p + 1..ix.accs.len() {
                    for &x in &pick {
                        for &y in &pick {
                            let mut i = ix.clone();
                            i.accs[p] = x;
                            i.accs[q] = y;
                            o.push(op(k, format!("{} {} with {} as {} and {} as {}", s, l, u.w.name(x), p, u.w.name(y), q), i));
                        }
                    }
                }
            }
        }
    }
    o
}

pub fn scenario(name: &str, thorough: bool) -> Option<Vec<Scn>> {
    let one = |s: Scn| Some(vec![s]);
    match name {
        "pool" => {
            let u = build(&Cfg::default());
            let s = [1u64, 7, 100, 0, 33, 250, 1_000];
            let o = trade(&u, &s, false);
            one(u.scn(name, o))
        }
        // price far from one, tiny supply
        "pool:skew" => {
            let u = build(&Cfg { vaults: vec![3, 1_000_003], supply: 17, user_assets: 1 << 40, fee: 150, ..Cfg::default() });
            let o = trade(&u, &[1, 2, 5, 0, 11, 3, 1_000_000], false);
            one(u.scn(name, o))
        }
        "pool:one" => {
            let u = build(&Cfg { vaults: vec![0, 9], supply: 1, user_assets: 1 << 40, fee: 999_999, ..Cfg::default() });
            let o = trade(&u, &[1, 2, 3, 0, 10_000], false);
            one(u.scn(name, o))
        }
        "pool:admin" => {
            let u = build(&Cfg { admin: true, ..Cfg::default() });
            let o = trade(&u, &[1, 7, 100, 0, 250], false);
            one(u.scn(name, o))
        }
        // rounding: a grid of vault contents, supplies and sizes
        "grid" => {
            let mut v = vec![];
            let amounts: &[u64] = if thorough { &[0, 1, 2, 3, 7, 10, 99, 100, 101, 9_999, 10_000, 10_001, 123_456_789, 1 << 32, (1 << 62) + 3, (1 << 63) - 1, 1 << 63, u64::MAX - 1_000_000] } else { &[0, 1, 2, 7, 100, 101, 10_001, 123_456_789, 1 << 32, (1 << 63) - 1, 1 << 63] };
            let supplies: &[u64] = if thorough { &[0, 1, 2, 3, 10, 11, 97, 100, 9_999, 10_000, 10_001, 123_456_788, (1 << 32) + 1, 1 << 62, (1 << 63) + 1, u64::MAX - 1_000_000] } else { &[0, 1, 2, 3, 11, 100, 10_000, 123_456_788, (1 << 32) + 1, 1 << 62] };
            let sizes: &[u64] = &[0, 1, 2, 3, 5, 10, 11, 50, 99, 100, 101, 1_000, 9_999, 10_000, 10_001, 99_999, 123_456_787, 1 << 31, (1 << 32) + 7, (1 << 61) + 5, (1 << 62) - 1, 1 << 63, u64::MAX];
            for &a in amounts {
                for &s in supplies {
                  for &held in if a >= 1 << 32 { &[1u64 << 62, 1 << 63][..] } else { &[1u64 << 62][..] } {
                    let u = build(&Cfg { vaults: vec![a, a / 3 + 1], supply: s, user_assets: held, ..Cfg::default() });
                    let mut o = vec![];
                    for &n in sizes {
                        for act in &[Action::Create(n), Action::Redeem(n)] {
                            let (k, l) = act_name(act);
                            o.push(op(k, format!("user0 {}", l), u.user(0, act.clone())));
                            o.push(op("quote", format!("quote: user0 {}", l), u.get(act.clone())));
                        }
                    }
                    v.push(u.scn(&format!("grid: vaults {} {} supply {}, {} held", a, a / 3 + 1, s, held), o));
                  }
                }
            }
            Some(v)
        }
        // fee rates and sizes, all roles of the user's account
        "fees" => {
            let mut v = vec![];
            let rates: Vec<u32> = if thorough { (150..170).chain([199, 200, 249, 250, 251, 333, 375, 999, 1_000, 2_499, 2_500, 2_501, 10_000, 99_999, 123_457, 333_333, 499_999, 500_000, 500_001, 750_000, 999_998, 999_999].iter().copied()).collect() } else { vec![150, 151, 160, 199, 250, 251, 375, 1_000, 2_500, 10_000, 123_457, 500_000, 999_999] };
            for f in rates {
                let u = build(&Cfg { fee: f, vaults: vec![1 << 30, 1 << 20], supply: 1 << 40, user_assets: 1 << 50, ..Cfg::default() });
                let mut o = vec![];
                let mut sizes: Vec<u64> = (0..=if thorough { 400 } else { 40 }).collect();
                sizes.extend_from_slice(&[99, 100, 399, 400, 401, 999, 1_000, 2_000, 6_666, 6_667, 9_999, 10_000, 10_001, 19_999, 20_000, 20_001, 29_999, 30_001, 66_667, 99_999, 100_000, 100_001, 999_999, 1_000_000, 1_000_001, 123_456_789, 1 << 35]);
                for n in sizes {
                    for a in &[Action::Create(n), Action::Redeem(n)] {
                        let (k, l) = act_name(a);
                        let p = &u.p;
                        for (w, t, r, s) in &[
                            (u.users[0], p.ptok[0], p.ref_tok, "user0"),
                            (u.users[0], p.ptok[0], p.ptok[0], "user0 as referrer"),
                            (u.users[0], p.ptok[0], p.lqd, "user0 with lqd as referrer"),
                            (u.users[0], p.ptok[0], p.init_fee, "user0 with initializer as referrer"),
                            (u.initializer, p.init_fee, p.ref_tok, "initializer"),
                            (u.initializer, p.init_fee, p.init_fee, "initializer as referrer"),
                            (u.feeown, p.lqd, p.ref_tok, "fee owner"),
                            (u.feeown, p.lqd, p.lqd, "fee owner as referrer"),
                        ] {
                            let mut i = u.exec_ix(0, *t, *w, *r, a.clone());
                            // assets always come from user 0
                            i.signers.push(u.users[0]);
                            if *w != u.users[0] {
                                if k == "create" {
                                    continue; // one authority for both kinds of accounts
                                }
                            }
                            o.push(op(k, format!("{} {}", s, l), i));
                        }
                    }
                }
                v.push(u.scn(&format!("fees: rate {}", f), o));
            }
            // large amounts, where the rate times the amount exceeds 64 bits; and rates out of range
            for &(f, k) in &[(150u32, 62u32), (151, 61), (2_500, 62), (2_501, 57), (333_333, 62), (999_999, 62), (0, 40), (1, 40), (149, 40), (1_000_000, 40), (1_000_001, 40), (2_000_000, 40), (u32::MAX, 40)] {
                let u = build(&Cfg { fee: f, vaults: vec![1 << 30, 1 << 20], supply: 1 << k, user_assets: 1 << 62, ..Cfg::default() });
                let mut sizes: Vec<u64> = vec![0, 1, 2, 10_000, 10_001];
                for b in (33..62).step_by(if thorough { 1 } else { 3 }) {
                    for d in &[-1i64, 0, 1, 12_345] {
                        sizes.push((1i64 << b).wrapping_add(*d) as u64);
                    }
                }
                let mut o = vec![];
                for n in sizes {
                    for a in &[Action::Create(n), Action::Redeem(n)] {
                        let (k, l) = act_name(a);
                        o.push(op(k, format!("user0 {}", l), u.user(0, a.clone())));
                        o.push(op(k, format!("user0 as referrer {}", l), u.exec_ix(0, u.p.ptok[0], u.users[0], u.p.ptok[0], a.clone())));
                        o.push(op(k, format!("user1 {}", l), u.user(1, a.clone())));
                    }
                }
                v.push(u.scn(&format!("fees: rate {}, supply 2^{}", f, k), o));
            }
            // somebody else's accounts in the place of those that are to be paid
            {
                let mut u = build(&Cfg { vaults: vec![1 << 30, 1 << 20], supply: 1 << 40, user_assets: 1 << 50, ..Cfg::default() });
                let (pm, u0) = (u.w.key(u.p.mint), u.w.key(u.users[0]));
                let mine = u.w.token("user0_second_pool", mk_key(62, 0), pm, u0, 0);
                let theirs = u.w.token("other_lqd", mk_key(62, 1), pm, fee_owner(), 0);
                let mut o = vec![];
                for n in &[1u64, 40, 10_000, 123_456] {
                    for a in &[Action::Create(*n), Action::Redeem(*n)] {
                        let (k, l) = act_name(a);
                        let i = u.user(0, a.clone());
                        for pos in &[9usize, 10, 11] {
                            for x in &[mine, theirs, u.p.ptok[0], u.p.ptok[1], u.p.ref_tok, u.p.lqd, u.p.init_fee] {
                                let mut j = i.clone();
                                j.accs[*pos] = *x;
                                o.push(op(k, format!("user0 {} with {} as account {}", l, u.w.name(*x), pos), j));
                            }
                        }
                    }
                }
                v.push(u.scn("fees: other payees", o));
            }
            // creations from the fee accounts need assets of their holders
            for &f in &[150u32, 2_500, 999_999] {
                let mut u = build(&Cfg { fee: f, vaults: vec![1 << 30, 1 << 20], supply: 1 << 40, user_assets: 1 << 50, ..Cfg::default() });
                let mut o = vec![];
                for (hi, (who, t, s)) in [(u.initializer, u.p.init_fee, "initializer"), (u.feeown, u.p.lqd, "fee owner")].iter().enumerate() {
                    let ok = u.w.key(*who);
                    let mut a = vec![];
                    for k in 0..2 {
                        let m = u.w.key(u.mints[k]);
                        a.push(u.w.token(&format!("{}_asset{}", s, k), mk_key(61, (hi * 2 + k) as u64), m, ok, 1 << 50));
                    }
                    for n in &[0u64, 1, 2, 3, 9, 10, 39, 40, 41, 400, 9_999, 10_000, 10_001, 100_000, 1_234_567] {
                        for r in &[u.p.ref_tok, *t] {
                            let mut i = u.exec_ix(0, *t, *who, *r, Action::Create(*n));
                            i.accs[6] = a[0];
                            i.accs[7] = a[1];
                            o.push(op("create", format!("{} creates {}", s, n), i));
                        }
                    }
                }
                v.push(u.scn(&format!("fees: creations by fee holders at {}", f), o));
            }
            Some(v)
        }
        // several assets, contents far apart
        "pool:three" => {
            let u = build(&Cfg { vaults: vec![1_000, 7, 123_456], supply: 300, ..Cfg::default() });
            let o = trade(&u, &[1, 7, 100, 0, 250], false);
            one(u.scn(name, o))
        }
        "pool:five" => {
            let u = build(&Cfg { vaults: vec![10, 0, 1_000, 3, 50], supply: 40, ..Cfg::default() });
            let o = trade(&u, &[1, 9, 25, 0], false);
            one(u.scn(name, o))
        }
        "auth" | "auth:admin" | "auth:params" | "auth:three" => {
            let mut c = Cfg { second: true, admin: name == "auth:admin", params: if name == "auth:params" { 3 } else { 0 }, ..Cfg::default() };
            if name == "auth:three" {
                c.vaults = vec![1_000, 777, 555, 90, 60, 40, 1, 300, 20];
            }
            let mut u = with_extra(&c);
            let o = substitution(&mut u);
            one(u.scn(name, o))
        }
        "auth2" => {
            let mut u = with_extra(&Cfg { second: true, ..Cfg::default() });
            let o = pairs(&mut u);
            one(u.scn(name, o))
        }
        // pools without assets or tokens
        "empty" => {
            let mut v = vec![];
            for &s in &[0u64, 5] {
                for va in &[vec![], vec![0u64], vec![10, 0]] {
                    let u = build(&Cfg { vaults: va.clone(), supply: s, ..Cfg::default() });
                    let mut o = vec![];
                    for &n in &[0u64, 1, 4, 6] {
                        for a in &[Action::Create(n), Action::Redeem(n)] {
                            let (k, l) = act_name(a);
                            o.push(op(k, l.clone(), u.user(0, a.clone())));
                            o.push(op("quote", l, u.get(a.clone())));
                        }
                    }
                    v.push(u.scn(&format!("empty: supply {} vaults {:?}", s, va), o));
                }
            }
            Some(v)
        }
        "admin" => {
            let u = with_extra(&Cfg { admin: true, vaults: vec![100, 0], supply: 50, room: 64, ..Cfg::default() });
            let mut o = admin_ops(&u, false);
            for a in &[Action::Create(10), Action::Redeem(10)] {
                let (k, l) = act_name(a);
                o.push(op(k, format!("user0 {}", l), u.user(0, a.clone())));
                let mut three = u.user(0, a.clone());
                three.accs.insert(4, u.w.idx(&mk_key(60, 0)).unwrap());
                three.accs.insert(9, u.atok[0][2]);
                o.push(op(k, format!("user0 {} (three assets)", l), three));
                let mut one = u.user(0, a.clone());
                one.accs.remove(7);
                one.accs.remove(3);
                o.push(op(k, format!("user0 {} (first asset only)", l), one));
            }
            one(u.scn(name, o))
        }
        "admin:wide" => {
            let u = with_extra(&Cfg { admin: true, vaults: vec![100, 0], supply: 50, room: 70, ..Cfg::default() });
            let mut o = admin_ops(&u, true);
            for a in &[Action::Create(10), Action::Redeem(10)] {
                let (k, l) = act_name(a);
                o.push(op(k, format!("user0 {}", l), u.user(0, a.clone())));
                o.push(op("quote", format!("quote {}", l), u.get(a.clone())));
            }
            one(u.scn(name, o))
        }
        _ => None,
    }
}

/// a vault of the pool's authority for an asset that is not yet in the pool
fn with_extra(c: &Cfg) -> U {
    let mut u = build(c);
    let m = u.w.key(u.mints[c.vaults.len()]);
    let s = u.p.state.signer;
    u.w.token("new_vault", mk_key(60, 0), m, s, 0);
    u
}
