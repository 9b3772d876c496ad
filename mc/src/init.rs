//! Market creation: every single deviation and every pair of deviations from a legitimate
//! InitializeMarket, judged by the rules a market's users rely on.
use crate::abs::*;
use crate::explore::*;
use crate::scen::*;
use crate::setup::*;
use crate::spec::*;
use crate::world::*;
use crate::Special;
use solana_program::rent::Rent;
use std::time::Instant;

#[derive(Clone)]
struct Case {
    d: Dex,
    ix: Ix,
    c: Cfg,
}

type F = Box<dyn Fn(&mut Case) + Send + Sync>;
struct Mut {
    name: String,
    group: String,
    ok: bool,
    f: F,
}

fn roles(d: &Dex) -> Vec<(&'static str, Idx)> {
    let m = &d.m;
    vec![
        ("market", m.market),
        ("req_q", m.req_q),
        ("event_q", m.event_q),
        ("bids", m.bids),
        ("asks", m.asks),
        ("coin_vault", m.coin_vault),
        ("pc_vault", m.pc_vault),
        ("coin_mint", m.coin_mint),
        ("pc_mint", m.pc_mint),
    ]
}

/// replaces the account at position p by a copy with other size / owner (same key)
fn swap(c: &mut Case, p: usize, len: Option<usize>, owner: Option<solana_program::pubkey::Pubkey>) {
    let i = c.ix.accs[p];
    let a = c.d.w.accs[i as usize].clone();
    let mut data = c.d.w.data(&c.d.w.st, i).to_vec();
    if let Some(l) = len {
        data.resize(l, 0);
    }
    let lam = c.d.w.st.lam[i as usize];
    let n = c.d.w.add(&a.name, a.key, owner.unwrap_or(a.owner), lam, &data);
    c.ix.accs[p] = n;
    // keep the read-only marking with the account
    for r in c.ix.readonly.iter_mut() {
        if *r == i {
            *r = n;
        }
    }
    let m = &mut c.d.m;
    for f in [
        &mut m.market, &mut m.req_q, &mut m.event_q, &mut m.bids, &mut m.asks, &mut m.coin_vault, &mut m.pc_vault, &mut m.coin_mint, &mut m.pc_mint,
    ] {
        if *f == i {
            *f = n;
        }
    }
    for t in c.d.toks.iter_mut() {
        if *t == i {
            *t = n;
        }
    }
}

fn poke(c: &mut Case, p: usize, off: usize, v: &[u8]) {
    let i = c.ix.accs[p];
    let w = c.d.w.clone();
    w.data_mut(&mut c.d.w.st, i)[off..off + v.len()].copy_from_slice(v);
}

fn muts(base: &Case, thorough: bool) -> Vec<Mut> {
    let mut v: Vec<Mut> = vec![];
    let mut add = |name: String, group: &str, ok: bool, f: F| v.push(Mut { name, group: group.to_string(), ok, f });
    let names: Vec<&str> = roles(&base.d).iter().map(|r| r.0).collect();
    let lens: Vec<usize> = base.ix.accs.iter().map(|&i| base.d.w.accs[i as usize].len).collect();
    let perm = base.c.oo_auth;
    let rent = Rent::default();
    // program-owned accounts
    for p in 0..5usize {
        let n = names[p];
        let len = lens[p];
        add(format!("{} not owned by the program", n), n, false, Box::new(move |c| swap(c, p, None, Some(mk_key(98, 1)))));
        add(format!("{} owned by the token program", n), n, false, Box::new(move |c| swap(c, p, None, Some(spl_token::ID))));
        // bytes that show the account is already in use
        for off in 0..13usize {
            if thorough || off % 4 == 0 || off == 5 || off == 6 {
                for b in [1u8, 2, 0x80] {
                    add(format!("{} byte {} is {}", n, off, b), n, false, Box::new(move |c| poke(c, p, off, &[b])));
                }
            }
        }
        for k in 1..=7usize {
            add(format!("{} byte {} from the end used", n, k), n, false, Box::new(move |c| poke(c, p, len - k, &[7])));
        }
        for (f, fl) in [("market", 3u64), ("closed account", 5 | 256), ("disabled market", 131), ("event queue", 17), ("bids", 33), ("asks", 65), ("request queue", 9), ("permissioned market", 515)] {
            add(
                format!("{} already is a {}", n, f),
                n,
                false,
                Box::new(move |c| {
                    poke(c, p, 0, b"serum");
                    poke(c, p, 5, &fl.to_le_bytes());
                    poke(c, p, len - 7, b"padding");
                }),
            );
            add(format!("{} flagged as {} without padding", n, f), n, false, Box::new(move |c| poke(c, p, 5, &fl.to_le_bytes())));
        }
        // sizes
        let mut sizes: Vec<(usize, bool)> = vec![(0, false), (4, false), (12, false), (20, false), (28, false)];
        for d in [-8i64, -4, -1, 1, 4, 8] {
            let l = (len as i64 + d) as usize;
            let ok = match p {
                0 => false,
                1 => d == 8,
                2 => d == 8,
                _ => continue,
            };
            sizes.push((l, ok));
        }
        match p {
            0 => {
                sizes.push((if perm { MKT_SIZE } else { MKT2_SIZE } + 12, false));
                sizes.push((len + 80, false));
                sizes.push((MKT_SIZE + 96 + 12, false));
            }
            1 => {
                sizes.push((12 + 32, false));
                sizes.push((12 + 32 + 72, false));
                sizes.push((12 + 32 + 80, true));
                sizes.push((12 + 32 + 800, true));
                sizes.push((12 + 32 + 5120, true));
            }
            2 => {
                for k in [0usize, 1, 2, 64, 127] {
                    sizes.push((12 + 32 + 88 * k, false));
                }
                sizes.push((12 + 32 + 88 * 128 - 8, false));
                for k in [128usize, 129, 200, 1000] {
                    sizes.push((12 + 32 + 88 * k, true));
                }
            }
            _ => {
                for k in [0usize, 1, 2, 100, 101, 199, 200] {
                    sizes.push((12 + 8 + 32 + 72 * k, false));
                }
                for k in [201usize, 202, 300, 909] {
                    sizes.push((12 + 8 + 32 + 72 * k, true));
                }
            }
        }
        for (l, ok) in sizes {
            let g = format!("{}", n);
            add(format!("{} of {} bytes", n, l), &g, ok, Box::new(move |c| {
                swap(c, p, Some(l), None);
                if p == 2 && l >= 44 {
                    c.d.m.ev_cap = (l - 44) / 88;
                }
                if p >= 3 && l >= 52 {
                    c.d.m.slab_nodes = (l - 52) / 72;
                }
            }));
        }
    }
    // rent
    for p in 1..9usize {
        let n = names[p];
        for (d, ok) in [(-1i64, false), (0, true), (1, true)] {
            let min = rent.minimum_balance(lens[p]) as i64;
            add(format!("{} holds the rent exempt minimum {:+}", n, d), n, ok, Box::new(move |c| {
                let i = c.ix.accs[p] as usize;
                c.d.w.st.lam[i] = (min + d) as u64;
            }));
        }
        add(format!("{} holds no lamports", n), n, false, Box::new(move |c| {
            let i = c.ix.accs[p] as usize;
            c.d.w.st.lam[i] = 0;
        }));
    }
    // vaults
    for p in 5..7usize {
        let n = names[p];
        let other = if p == 5 { base.d.m.pc_mint } else { base.d.m.coin_mint };
        let ok_ = *base.d.w.key(other);
        add(format!("{} of the other token", n), n, false, Box::new(move |c| poke(c, p, 0, ok_.as_ref())));
        add(format!("{} of an unrelated token", n), n, false, Box::new(move |c| poke(c, p, 0, mk_key(98, 2).as_ref())));
        let uk = *base.d.w.key(base.d.users[0].owner);
        add(format!("{} owned by a user", n), n, false, Box::new(move |c| poke(c, p, 32, uk.as_ref())));
        let mk = *base.d.w.key(base.d.m.market);
        add(format!("{} owned by the market address", n), n, false, Box::new(move |c| poke(c, p, 32, mk.as_ref())));
        for byte in [0usize, 15, 31] {
            add(format!("{} owner differs in byte {}", n, byte), n, false, Box::new(move |c| {
                let i = c.ix.accs[p];
                let b = c.d.w.data(&c.d.w.st, i)[32 + byte] ^ 1;
                poke(c, p, 32 + byte, &[b]);
            }));
            add(format!("{} mint differs in byte {}", n, byte), n, false, Box::new(move |c| {
                let i = c.ix.accs[p];
                let b = c.d.w.data(&c.d.w.st, i)[byte] ^ 1;
                poke(c, p, byte, &[b]);
            }));
        }
        add(format!("{} with a delegate", n), n, false, Box::new(move |c| {
            poke(c, p, 72, &[1, 0, 0, 0]);
            poke(c, p, 76, uk.as_ref());
            poke(c, p, 121, &1000u64.to_le_bytes());
        }));
        add(format!("{} with a delegate without allowance", n), n, false, Box::new(move |c| {
            poke(c, p, 72, &[1, 0, 0, 0]);
            poke(c, p, 76, uk.as_ref());
        }));
        add(format!("{} with a close authority", n), n, false, Box::new(move |c| {
            poke(c, p, 129, &[1, 0, 0, 0]);
            poke(c, p, 133, uk.as_ref());
        }));
        add(format!("{} uninitialised", n), n, false, Box::new(move |c| poke(c, p, 108, &[0])));
        add(format!("{} not a token program account", n), n, false, Box::new(move |c| swap(c, p, None, Some(mk_key(98, 1)))));
        add(format!("{} owned by the dex", n), n, false, Box::new(move |c| {
            let pr = c.d.w.prog;
            swap(c, p, None, Some(pr))
        }));
        add(format!("{} is a mint", n), n, false, Box::new(move |c| c.ix.accs[p] = c.d.m.coin_mint));
        add(format!("{} is a user's wallet", n), n, false, Box::new(move |c| c.ix.accs[p] = if p == 5 { c.d.users[0].coin } else { c.d.users[0].pc }));
        add(format!("{} too short", n), n, false, Box::new(move |c| swap(c, p, Some(164), None)));
        add(format!("{} of a second market", n), n, false, Box::new(move |c| {
            let m2 = c.d.m2.clone().unwrap();
            c.ix.accs[p] = if p == 5 { m2.coin_vault } else { m2.pc_vault };
        }));
    }
    add("vaults exchanged".into(), "coin_vault+pc_vault+coin_mint+pc_mint", false, Box::new(|c| c.ix.accs.swap(5, 6)));
    add("mints exchanged".into(), "coin_vault+pc_vault+coin_mint+pc_mint", false, Box::new(|c| c.ix.accs.swap(7, 8)));
    // mints
    for p in 7..9usize {
        let n = names[p];
        add(format!("{} not a token program account", n), n, false, Box::new(move |c| swap(c, p, None, Some(mk_key(98, 1)))));
        add(format!("{} uninitialised", n), n, false, Box::new(move |c| poke(c, p, 45, &[0])));
        add(format!("{} is a token account", n), n, false, Box::new(move |c| c.ix.accs[p] = c.d.users[0].coin));
        add(format!("{} too short", n), n, false, Box::new(move |c| swap(c, p, Some(81), None)));
    }
    // nonce
    let (w, mk) = (base.d.w.clone(), *base.d.w.key(base.d.m.market));
    for k in 0u64..if thorough { 255 } else { 40 } {
        if k == base.d.m.nonce {
            continue;
        }
        let other = solana_program::pubkey::Pubkey::create_program_address(&[mk.as_ref(), &k.to_le_bytes()], &w.prog).ok();
        add(format!("nonce {} with the vaults of another nonce", k), "nonce", false, Box::new(move |c| c.ix.data[23..31].copy_from_slice(&k.to_le_bytes())));
        if let Some(vs) = other {
            // another valid nonce with vaults that belong to it
            if k < 12 {
                add(format!("nonce {} with its own vaults", k), "nonce+coin_vault+pc_vault", true, Box::new(move |c| {
                    c.ix.data[23..31].copy_from_slice(&k.to_le_bytes());
                    poke(c, 5, 32, vs.as_ref());
                    poke(c, 6, 32, vs.as_ref());
                    c.d.m.nonce = k;
                    let w = &mut c.d.w;
                    c.d.m.vault_signer = w.add_sys("vault_signer_k", vs);
                }));
            }
        }
    }
    for k in [256u64, 1 << 32, u64::MAX] {
        add(format!("nonce {}", k), "nonce", false, Box::new(move |c| c.ix.data[23..31].copy_from_slice(&k.to_le_bytes())));
    }
    // numbers
    for x in [1u64, 2, 1_000, 1 << 32, 1 << 62, u64::MAX] {
        add(format!("coin lot {}", x), "coin_lot", true, Box::new(move |c| {
            c.ix.data[5..13].copy_from_slice(&x.to_le_bytes());
            c.d.m.coin_lot = x;
        }));
        add(format!("pc lot {}", x), "pc_lot", true, Box::new(move |c| {
            c.ix.data[13..21].copy_from_slice(&x.to_le_bytes());
            c.d.m.pc_lot = x;
        }));
        add(format!("dust {}", x), "dust", true, Box::new(move |c| c.ix.data[31..39].copy_from_slice(&x.to_le_bytes())));
    }
    for x in [1u16, 10, 255, 256, u16::MAX] {
        add(format!("fee bps {}", x), "bps", true, Box::new(move |c| c.ix.data[21..23].copy_from_slice(&x.to_le_bytes())));
    }
    // number of accounts and of bytes
    for n in 0..10usize {
        add(format!("only {} accounts", n), "count", false, Box::new(move |c| c.ix.accs.truncate(n)));
    }
    add("fourteen accounts".into(), "count", false, Box::new(|c| {
        while c.ix.accs.len() < 14 {
            let x = c.d.users[0].owner;
            c.ix.accs.push(x);
        }
    }));
    // authorities that do not fit the market's size
    if !perm {
        for n in 1..=3usize {
            add(format!("{} authorities for a plain market account", n), "count", false, Box::new(move |c| {
                for k in 0..n {
                    let x = c.d.users[k % 2].owner;
                    c.ix.accs.push(x);
                }
            }));
        }
    } else {
        // an authority may be any account, another authority among them
        for k in 10..base.ix.accs.len() {
            for (what, x) in [("the opener", base.ix.accs[10]), ("the last one", *base.ix.accs.last().unwrap()), ("the market", base.d.m.market), ("the vault signer", base.d.m.vault_signer), ("a trader", base.d.users[0].owner), ("the token program", base.d.token)] {
                if x != base.ix.accs[k] {
                    add(format!("authority {} is {}", k - 10, what), ["auth0", "auth1", "auth2"][k - 10], true, Box::new(move |c| {
                        c.ix.accs[k] = x;
                        let m = &mut c.d.m;
                        *[&mut m.oo_auth, &mut m.prune_auth, &mut m.crank_auth][k - 10] = Some(x);
                    }));
                }
            }
        }
        add("no authority for a permissioned market account".into(), "count", false, Box::new(|c| c.ix.accs.truncate(10)));
    }
    for l in [0usize, 1, 4, 5, 38, 40, 47] {
        add(format!("{} bytes of data", l), "data", false, Box::new(move |c| c.ix.data.resize(l, 0)));
    }
    add("another version".into(), "data", false, Box::new(|c| c.ix.data[0] = 1));
    v
}

fn expect_market(c: &Case) -> Vec<u8> {
    let d = &c.d;
    let m = &d.m;
    let mut o = b"serum".to_vec();
    let perm = c.ix.accs.len() > 10;
    let flags: u64 = 3 | if perm { 512 } else { 0 } | if c.ix.accs.len() > 12 { 1024 } else { 0 };
    let k = |o: &mut Vec<u8>, i: Idx| o.extend_from_slice(d.w.key(i).as_ref());
    let n = |o: &mut Vec<u8>, x: u64| o.extend_from_slice(&x.to_le_bytes());
    let dt = &c.ix.data;
    n(&mut o, flags);
    k(&mut o, m.market);
    o.extend_from_slice(&dt[23..31]);
    k(&mut o, m.coin_mint);
    k(&mut o, m.pc_mint);
    k(&mut o, m.coin_vault);
    n(&mut o, 0);
    n(&mut o, 0);
    k(&mut o, m.pc_vault);
    n(&mut o, 0);
    n(&mut o, 0);
    o.extend_from_slice(&dt[31..39]);
    k(&mut o, m.req_q);
    k(&mut o, m.event_q);
    k(&mut o, m.bids);
    k(&mut o, m.asks);
    o.extend_from_slice(&dt[5..13]);
    o.extend_from_slice(&dt[13..21]);
    let mut b = [0u8; 8];
    b[..2].copy_from_slice(&dt[21..23]);
    o.extend_from_slice(&b);
    n(&mut o, 0);
    if perm {
        for p in 10..13 {
            match c.ix.accs.get(p) {
                Some(&i) => k(&mut o, i),
                None => o.extend_from_slice(&[0u8; 32]),
            }
        }
        o.extend_from_slice(&[0u8; 992]);
    }
    o.extend_from_slice(b"padding");
    o
}

/// runs the case; Some(description) when the program misbehaves
fn judge(c: &Case, ok: bool, trade: bool, n: &mut u64) -> Option<String> {
    let pre = &c.d.w.st;
    let mut post = pre.clone();
    let r = c.d.w.exec(pre, &mut post, &c.ix);
    *n += 1;
    if r.ok() != ok {
        return Some(format!("{}: {:?}", if ok { "refused although it is legitimate" } else { "accepted although it must be refused" }, r));
    }
    if !ok {
        if post.buf != pre.buf || post.lam != pre.lam {
            return Some("refused but something changed".into());
        }
        return None;
    }
    let d = &c.d;
    let w = &d.w;
    let m = &d.m;
    if w.data(&post, m.market) != &expect_market(c)[..] {
        return Some("the market record differs from what was requested".into());
    }
    for (i, flag) in [(m.req_q, 9u64), (m.event_q, 17), (m.bids, 33), (m.asks, 65)] {
        let x = w.data(&post, i);
        let l = x.len();
        if &x[..5] != b"serum" || &x[l - 7..] != b"padding" || x[5..13] != flag.to_le_bytes() {
            return Some(format!("{} is not marked as what it is", w.name(i)));
        }
        if x[13..l - 7].iter().any(|&b| b != 0) {
            return Some(format!("{} does not start out empty", w.name(i)));
        }
    }
    if post.lam != pre.lam {
        return Some("lamports moved".into());
    }
    for i in 0..w.accs.len() as Idx {
        if ![m.market, m.req_q, m.event_q, m.bids, m.asks].contains(&i) && w.data(pre, i) != w.data(&post, i) {
            return Some(format!("{} changed", w.name(i)));
        }
    }
    // cannot be initialised a second time
    let mut again = post.clone();
    *n += 1;
    if w.exec(&post, &mut again, &c.ix).ok() {
        return Some("the market can be initialised a second time".into());
    }
    // nor can any of its accounts be used for another market
    let m2 = d.m2.clone().unwrap();
    let c2 = Cfg { oo_auth: false, prune_auth: false, crank_auth: false, ..c.c.clone() };
    let ix2 = init_ix(w, &m2, &c2, d.rent);
    for s in 0..32u32 {
        let mut x = ix2.clone();
        for p in 0..5 {
            if s >> p & 1 == 1 {
                x.accs[p] = c.ix.accs[p];
            }
        }
        let mut again = post.clone();
        *n += 1;
        if w.exec(&post, &mut again, &x).ok() != (s == 0) {
            return Some(if s == 0 { "a second market cannot be created".into() } else { format!("accounts of a live market (mask {:b}) were used for another one", s) });
        }
    }
    // and it works
    if trade {
        let mut dd = d.clone();
        dd.w.st = post.clone();
        let mut st = post.clone();
        let o = |s: Side, p: u64, q: u64| New { side: s, price: p, qty: q, pc: 300_000, ty: Ty::Limit, stb: Stb::Dec, cid: 1, limit: L, ts: NOTS };
        let mut ops = vec![];
        if m.oo_auth.is_some() {
            ops.push(Op::InitOoAuth(0));
            ops.push(Op::InitOoAuth(1));
        }
        ops.push(Op::New(0, o(Ask, 7, 2)));
        ops.push(Op::New(1, o(Bid, 8, 1)));
        ops.push(if m.crank_auth.is_some() { Op::ConsumePerm(L, ALL) } else { Op::Consume(L, ALL) });
        ops.push(Op::CancelNth(0, Ask, 0));
        ops.push(Op::Settle(1));
        PREFIX.lock().unwrap().clear();
        let r = run_prefix(&dd, &mut st, &ops);
        *n += ops.len() as u64;
        let f = std::mem::take(&mut *PREFIX.lock().unwrap());
        if let Some((op, k, (a, msg))) = f.into_iter().next() {
            return Some(format!("trading on it: {:?} [{}] {} at {}", a, k, msg, op));
        }
        if let Err(e) = r {
            return Some(format!("trading on it: {}", e));
        }
    }
    None
}

pub fn run(thorough: bool, deadline: Instant) -> Special {
    let mut out = Special { name: "market creation".into(), states: 0, transitions: 0, leaves: 0, samples: vec![], exhaustive: true, violation: None };
    for variant in 0..4usize {
        let c = Cfg { oo_auth: variant > 0, prune_auth: variant > 1, crank_auth: variant > 2, second: true, ..Cfg::default() };
        let d = prepare(&c);
        let ix = init_ix(&d.w, &d.m, &c, d.rent);
        let base = Case { d, ix, c };
        let ms = muts(&base, thorough);
        // single deviations (and none)
        let mut cases: Vec<(usize, usize)> = vec![(usize::MAX, usize::MAX)];
        for i in 0..ms.len() {
            cases.push((i, usize::MAX));
        }
        for i in 0..ms.len() {
            for j in 0..i {
                let clash = ms[i].group.split('+').any(|g| ms[j].group.split('+').any(|h| g == h));
                // changing the data's length makes field edits meaningless
                let len = |m: &Mut| m.group == "data" || m.group == "count";
                if clash || len(&ms[i]) || len(&ms[j]) {
                    continue;
                }
                cases.push((i, j));
            }
        }
        out.states += cases.len() as u64;
        out.leaves += cases.len() as u64;
        let next = std::sync::atomic::AtomicUsize::new(0);
        let done = std::sync::atomic::AtomicU64::new(0);
        let bad: std::sync::Mutex<Vec<(usize, String)>> = std::sync::Mutex::new(vec![]);
        let late = std::sync::atomic::AtomicBool::new(false);
        use std::sync::atomic::Ordering::Relaxed;
        let singles = 1 + ms.len();
        let go = |k: usize| {
            let (i, j) = cases[k];
            let mut c = base.clone();
            let mut ok = true;
            let mut nm = vec![];
            for x in [i, j] {
                if x != usize::MAX {
                    (ms[x].f)(&mut c);
                    ok &= ms[x].ok;
                    nm.push(ms[x].name.clone());
                }
            }
            let mut n = 0;
            // trading needs funds that fit the lots
            let trade = k < singles && c.d.m.coin_lot <= 1000 && c.d.m.pc_lot <= 1009;
            if let Some(e) = judge(&c, ok, trade, &mut n) {
                bad.lock().unwrap().push((k, format!("market variant {} ({} authorities), deviations {:?}: {}", variant, variant, nm, e)));
            }
            done.fetch_add(n, Relaxed);
        };
        // the trading follow-up uses a shared record of findings: run those one after another
        for k in 0..singles {
            go(k);
        }
        next.store(singles, Relaxed);
        std::thread::scope(|s| {
            for _ in 0..8 {
                s.spawn(|| loop {
                    let k = next.fetch_add(1, Relaxed);
                    if k >= cases.len() || !bad.lock().unwrap().is_empty() {
                        break;
                    }
                    if k % 64 == 0 && Instant::now() > deadline {
                        late.store(true, Relaxed);
                        break;
                    }
                    go(k);
                });
            }
        });
        out.transitions += done.load(Relaxed);
        if late.load(Relaxed) {
            out.exhaustive = false;
        }
        let mut b = bad.into_inner().unwrap();
        b.sort();
        if let Some((_, e)) = b.into_iter().next() {
            out.violation = Some(e);
            return out;
        }
        out.samples.push(format!("{} authorities: {} single deviations, {} cases, e.g. [{}] and [{}]", variant, ms.len(), cases.len(), ms[ms.len() / 3].name, ms[ms.len() / 2].name));
    }
    out
}
