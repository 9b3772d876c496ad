//! Account substitution: every instruction, every account position, every replacement, with and
//! without the victim's signature.
use crate::abs::*;
use crate::explore::*;
use crate::scen::*;
use crate::setup::*;
use crate::spec::*;
use crate::world::*;
use std::collections::HashSet;

struct Base {
    d: Dex,
    st: St,
    m2_oos: Vec<Idx>,
}

const A: usize = 0; // the victim
const B: usize = 1; // the attacker
const E: usize = 2; // has no open orders account yet
const F: usize = 3; // has an empty open orders account

fn base(mode: &str) -> Result<Base, String> {
    let perm = mode != "open";
    let c = Cfg {
        users: 4,
        second: true,
        oo_auth: perm,
        prune_auth: perm && mode != "half",
        crank_auth: perm && mode != "half",
        share: if mode == "same" { 3 } else { 0 },
        twin: Some(if perm { 3 } else { 0 }),
        srm: vec![(1, 100_000_000), (2, 1), (1, 3_000_000_000_000), (0, 5)],
        ..Cfg::default()
    };
    let mut d = build(&c);
    let m2_oos: Vec<Idx> = d.oos[4..].to_vec();
    // accounts an attacker can make up
    let evil = mk_key(77, 0);
    let (ak, bk) = (*d.w.key(d.users[A].owner), *d.w.key(d.users[B].owner));
    let cm = *d.w.key(d.m.coin_mint);
    let pm = *d.w.key(d.m.pc_mint);
    let vs = *d.w.key(d.m.vault_signer);
    let l = |d: &Dex, i: Idx| d.w.accs[i as usize].len;
    let (ml, ol, el, bl) = (l(&d, d.m.market), l(&d, d.users[A].oo), l(&d, d.m.event_q), l(&d, d.m.bids));
    let fk = |d: &mut Dex, n: &str, i: u64, len: usize| d.w.add(n, mk_key(78, i), evil, 50_000_000_000, &vec![0u8; len]);
    let fake_market = fk(&mut d, "fake_market", 1, ml);
    let fake_oo = fk(&mut d, "fake_oo", 2, ol);
    let fake_eq = fk(&mut d, "fake_event_q", 3, el);
    let fake_bids = fk(&mut d, "fake_bids", 4, bl);
    let fake_tok = d.w.add("fake_pc", mk_key(78, 5), evil, 50_000_000_000, &token_data(&pm, &bk, 1 << 40));
    let fake_srm = d.w.add("fake_srm", mk_key(78, 6), evil, 50_000_000_000, &token_data(&serum_dex::instruction::msrm_token::ID, &bk, 100));
    d.w.add("fake_token_program", mk_key(78, 7), solana_program::bpf_loader::ID, 1, &[]);
    // genuine token accounts with unusual owners
    let x1 = d.w.add_token("vault_owned_coin", mk_key(79, 1), &cm, &vs, 500);
    let x2 = d.w.add_token("vault_owned_pc", mk_key(79, 2), &pm, &vs, 70_000);
    let x3 = d.w.add_token("other_mint", mk_key(79, 3), &mk_key(79, 99), &ak, 1 << 40);
    let x4 = d.w.add_token("A_second_pc", mk_key(79, 4), &pm, &ak, 300_000);
    // B's tokens with A as delegate
    let mut del = token_data(&pm, &bk, 200_000);
    del[72] = 1;
    del[76..108].copy_from_slice(ak.as_ref());
    del[121..129].copy_from_slice(&100_000u64.to_le_bytes());
    let x5 = d.w.add("B_pc_delegated_to_A", mk_key(79, 5), spl_token::ID, 10_000_000_000, &del);
    let mut un = token_data(&pm, &ak, 0);
    un[108] = 0;
    d.w.add("uninitialized_token", mk_key(79, 6), spl_token::ID, 10_000_000_000, &un);
    let blank = d.w.add_dex("blank_oo", mk_key(79, 7), OO_SIZE);
    let poor = d.w.add_dex("poor_oo", mk_key(79, 8), OO_SIZE);
    d.w.st.lam[poor as usize] = 1;
    d.oos.push(blank);
    d.oos.push(poor);
    d.toks.extend_from_slice(&[x1, x2, x3, x4, x5]);
    let _ = (fake_tok, fake_srm);
    let mut st = d.w.st.clone();
    let mut pre = vec![];
    if perm {
        for u in &[A, B, F] {
            pre.push(Op::InitOoAuth(*u));
        }
    } else {
        pre.push(Op::InitOo(F));
    }
    let n = |u: usize, s: Side, p: u64, q: u64, id: u64| {
        let mut o = lim(&c, s, p, q);
        o.cid = id;
        Op::New(u, o)
    };
    pre.extend(vec![n(A, Ask, 9, 5, 1), n(A, Bid, 6, 4, 2), n(B, Bid, 9, 4, 2), n(B, Ask, 10, 5, 1), n(B, Bid, 5, 4, 3), n(A, Ask, 5, 2, 4)]);
    pre.push(if c.crank_auth { Op::ConsumePerm(65535, ALL) } else { Op::Consume(65535, ALL) });
    pre.push(n(B, Bid, 9, 1, 7)); // leaves a few events queued
    run_prefix(&d, &mut st, &pre)?;
    // the second market gets the same kind of history
    let mut d2 = d.clone();
    d2.m = d.m2.clone().unwrap();
    d2.m2 = Some(d.m.clone());
    for u in 0..4 {
        d2.users[u].oo = m2_oos[u];
    }
    run_prefix(&d2, &mut st, &[n(A, Ask, 9, 5, 1), n(A, Bid, 6, 4, 2), n(B, Bid, 9, 4, 2), n(B, Ask, 10, 5, 1), Op::Consume(65535, ALL), n(B, Bid, 9, 1, 7)])?;
    d.alt = Some(Box::new(d2));
    // look-alikes carry the bytes of the real thing
    let cp = |d: &Dex, st: &mut St, from: Idx, to: Idx| {
        let v = d.w.data(st, from).to_vec();
        d.w.data_mut(st, to).copy_from_slice(&v);
    };
    cp(&d, &mut st, d.m.market, fake_market);
    cp(&d, &mut st, d.users[A].oo, fake_oo);
    d.w.data_mut(&mut st, fake_oo)[5 + 40..5 + 72].copy_from_slice(bk.as_ref());
    cp(&d, &mut st, d.m.event_q, fake_eq);
    cp(&d, &mut st, d.m.bids, fake_bids);
    Ok(Base { d, st, m2_oos })
}

/// instructions that are legitimate in the base state
fn legit(b: &Base, perm: bool) -> Vec<(&'static str, Op)> {
    let c = Cfg::default();
    let o = |s, p, q, id| {
        let mut x = lim(&c, s, p, q);
        x.cid = id;
        x
    };
    let _ = b;
    let mut v = vec![
        ("new_bid", Op::New(A, o(Bid, 7, 1, 9))),
        ("new_ask", Op::New(A, o(Ask, 8, 1, 9))),
        ("new_srm", Op::NewSrm(A, o(Bid, 10, 1, 9), A)),
        ("take_bid", Op::Take(A, Take { side: Bid, price: 10, qty: 1, pc: 50_000, min_coin: 1, min_pc: 0, limit: L })),
        ("take_ask", Op::Take(A, Take { side: Ask, price: 5, qty: 1, pc: 1, min_coin: 0, min_pc: 1, limit: L })),
        ("take_srm", Op::TakeSrm(A, Take { side: Bid, price: 10, qty: 1, pc: 50_000, min_coin: 1, min_pc: 0, limit: L }, A)),
        ("cancel", Op::CancelNth(A, Bid, 0)),
        ("cancel_cid", Op::CancelCid(A, 2)),
        ("cancel_cids", Op::CancelCids(A, vec![2, 1])),
        ("replace", Op::Replace(A, o(Bid, 6, 1, 2))),
        ("replaces", Op::Replaces(A, vec![o(Ask, 9, 1, 1), o(Ask, 10, 1, 6)])),
        ("settle", Op::Settle(A)),
        ("settle_ref", Op::SettleRef(A)),
        ("sweep", Op::Sweep),
        ("disable", Op::Disable),
        ("close", Op::Close(F)),
    ];
    if perm {
        v.push(("consume_perm", Op::ConsumePerm(65535, 3)));
        v.push(("consume", Op::Consume(65535, 3)));
        v.push(("init_oo", Op::InitOoAuth(E)));
        v.push(("init_oo_plain", Op::InitOo(E)));
        v.push(("prune", Op::Prune(A, 65535)));
    } else {
        v.push(("new_init", Op::New(E, o(Bid, 5, 1, 9))));
        v.push(("consume", Op::Consume(65535, 3)));
        v.push(("init_oo", Op::InitOo(E)));
        v.push(("prune", Op::Prune(A, 65535)));
        v.push(("consume_perm", Op::ConsumePerm(65535, 3)));
    }
    v
}

/// every legitimate instruction with the base state and its spelled-out form
pub fn legit_cases(perm: bool) -> Result<Vec<(&'static str, Op, Dex, St, Ix)>, String> {
    let b = base(if perm { "perm" } else { "open" })?;
    let a = b.d.decode(&b.st)?;
    let mut v = vec![];
    for (nm, op) in legit(&b, perm) {
        let (_, ix) = b.d.resolve(&a, &op).ok_or_else(|| format!("{}: cannot resolve", nm))?;
        v.push((nm, op, b.d.clone(), b.st.clone(), ix));
    }
    Ok(v)
}

pub fn kinds(perm: bool) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = vec![
        "new_bid", "new_ask", "new_srm", "take_bid", "take_ask", "take_srm", "cancel", "cancel_cid", "cancel_cids", "replace", "replaces", "settle",
        "settle_ref", "sweep", "disable", "close", "consume", "init_oo", "prune", "consume_perm",
    ];
    v.push(if perm { "init_oo_plain" } else { "new_init" });
    v
}

/// scenario "auth:<perm|open>:<instruction>"
/// ("auth2:...": also every pair of positions replaced by anything)
pub fn scenario(arg: &str, thorough: bool, pairs: bool) -> Result<Scn, String> {
    let (p, which) = match arg.find(':') {
        Some(i) => (&arg[..i], &arg[i + 1..]),
        None => (arg, ""),
    };
    let perm = p != "open";
    let b = base(p)?;
    let d = &b.d;
    let a0 = d.decode(&b.st)?;
    let m2 = d.m2.clone().unwrap();
    let all: Vec<Idx> = (0..d.w.accs.len() as Idx).collect();
    let m = &d.m;
    let mut victims: HashSet<Idx> = [d.users[A].owner, d.users[E].owner, d.users[F].owner, d.sweeper, d.disabler, m.vault_signer, m2.vault_signer].iter().copied().collect();
    victims.extend(m.oo_auth);
    victims.extend(m.prune_auth);
    victims.extend(m.crank_auth);
    let m2_of = |x: Idx| -> Option<Idx> {
        let pairs = [
            (m.market, m2.market),
            (m.req_q, m2.req_q),
            (m.event_q, m2.event_q),
            (m.bids, m2.bids),
            (m.asks, m2.asks),
            (m.coin_vault, m2.coin_vault),
            (m.pc_vault, m2.pc_vault),
            (m.vault_signer, m2.vault_signer),
        ];
        if let Some((_, y)) = pairs.iter().find(|(a, _)| *a == x) {
            return Some(*y);
        }
        d.users.iter().position(|u| u.oo == x).map(|u| b.m2_oos[u])
    };
    let evil_of = |x: Idx| -> Option<Idx> {
        let e = &d.users[B];
        for u in &d.users {
            if x == u.owner {
                return Some(e.owner);
            }
            if x == u.oo {
                return Some(e.oo);
            }
            if x == u.coin {
                return Some(e.coin);
            }
            if x == u.pc || x == d.sweep_to || x == d.referrer {
                return Some(e.pc);
            }
            if x == u.srm {
                return Some(e.srm);
            }
        }
        if x == d.rent_dest || victims.contains(&x) {
            return Some(e.owner);
        }
        None
    };
    let mut alpha = vec![];
    for (nm, op) in legit(&b, perm) {
        if which != nm && !which.is_empty() {
            continue;
        }
        let (k, ix) = match d.resolve(&a0, &op) {
            Some(x) => x,
            None => return Err(format!("{}: cannot resolve", nm)),
        };
        let attacker_signs = |accs: &Vec<Idx>| -> Vec<Idx> {
            let mut v: Vec<Idx> = accs.iter().copied().filter(|x| !victims.contains(x)).collect();
            v.dedup();
            v
        };
        let mut seen: HashSet<(Vec<Idx>, Vec<Idx>)> = HashSet::new();
        let mut push = |accs: Vec<Idx>, signers: Vec<Idx>| {
            if seen.insert((accs.clone(), signers.clone())) {
                alpha.push(Op::Raw(k.clone(), Ix { data: ix.data.clone(), accs, signers, readonly: vec![] }));
            }
        };
        push(ix.accs.clone(), ix.signers.clone());
        // signatures: every subset of the required ones
        for s in 0..1u32 << ix.signers.len() {
            let v: Vec<Idx> = ix.signers.iter().enumerate().filter(|(i, _)| s >> i & 1 == 1).map(|(_, x)| *x).collect();
            push(ix.accs.clone(), v);
        }
        push(ix.accs.clone(), attacker_signs(&ix.accs));
        // one position replaced by anything
        for p in 0..ix.accs.len() {
            for &x in &all {
                let mut v = ix.accs.clone();
                v[p] = x;
                let at = attacker_signs(&v);
                push(v.clone(), at);
                push(v.clone(), ix.signers.clone());
                let mut s = ix.signers.clone();
                s.push(x);
                push(v, s);
            }
        }
        // two positions replaced by anything
        if pairs {
            for p in 0..ix.accs.len() {
                for q in 0..p {
                    for &x in &all {
                        for &y in &all {
                            let mut v = ix.accs.clone();
                            v[p] = x;
                            v[q] = y;
                            let at = attacker_signs(&v);
                            push(v.clone(), at);
                            push(v, ix.signers.clone());
                        }
                    }
                }
            }
        }
        // two positions exchanged
        for p in 0..ix.accs.len() {
            for q in 0..p {
                let mut v = ix.accs.clone();
                v.swap(p, q);
                push(v, ix.signers.clone());
            }
        }
        // missing and additional accounts
        for n in 0..ix.accs.len() {
            push(ix.accs[..n].to_vec(), ix.signers.clone());
        }
        for &x in &[d.referrer, d.users[A].srm, d.users[B].srm, d.users[A].pc, d.users[A].owner, d.users[B].owner, m.market] {
            let mut v = ix.accs.clone();
            v.push(x);
            push(v.clone(), ix.signers.clone());
            v.push(x);
            push(v, ix.signers.clone());
        }
        // combinations: own / second market's / attacker's account in each position
        let alts: Vec<Vec<Idx>> = ix
            .accs
            .iter()
            .map(|&x| {
                let mut v = vec![x];
                if let Some(y) = m2_of(x) {
                    v.push(y);
                }
                if let Some(y) = evil_of(x) {
                    if !v.contains(&y) {
                        v.push(y);
                    }
                }
                v
            })
            .collect();
        let total: u64 = alts.iter().map(|v| v.len() as u64).product();
        let full = thorough && total <= 600_000 || total <= 60_000;
        if full {
            let mut idx = vec![0usize; alts.len()];
            'outer: loop {
                let v: Vec<Idx> = idx.iter().zip(alts.iter()).map(|(&i, a)| a[i]).collect();
                let at = attacker_signs(&v);
                push(v.clone(), at);
                push(v, ix.signers.clone());
                for p in 0.. {
                    if p == idx.len() {
                        break 'outer;
                    }
                    idx[p] += 1;
                    if idx[p] < alts[p].len() {
                        break;
                    }
                    idx[p] = 0;
                }
            }
        } else {
            // all subsets moved to the second market with the user's parts switched as a block,
            // and all pairs of arbitrary alternatives
            for p in 0..alts.len() {
                for q in 0..p {
                    for &x in &alts[p] {
                        for &y in &alts[q] {
                            let mut v = ix.accs.clone();
                            v[p] = x;
                            v[q] = y;
                            let at = attacker_signs(&v);
                            push(v.clone(), at);
                            push(v, ix.signers.clone());
                        }
                    }
                }
            }
            let mpos: Vec<usize> = (0..alts.len()).filter(|&p| m2_of(ix.accs[p]).is_some()).collect();
            for s in 0..1u32 << mpos.len() {
                for &evil in &[false, true] {
                    let mut v = ix.accs.clone();
                    if evil {
                        for p in 0..v.len() {
                            if let Some(y) = evil_of(v[p]) {
                                v[p] = y;
                            }
                        }
                    }
                    for (i, &p) in mpos.iter().enumerate() {
                        if s >> i & 1 == 1 {
                            v[p] = m2_of(ix.accs[p]).unwrap();
                        }
                    }
                    let at = attacker_signs(&v);
                    push(v.clone(), at);
                    push(v, ix.signers.clone());
                }
            }
        }
    }
    Ok(Scn { name: format!("auth{}:{}", if pairs { "2" } else { "" }, arg), dex: b.d, init: b.st, alpha })
}
