//! C01: the crank's instruction against every event queue.
use crate::node::*;
use crate::wire::client;
use crate::world::*;
use crate::{Out, Report};
use serum_dex::matching::Side;
use solana_sdk::{signature::Signer, transaction::Transaction};
use std::sync::{Arc, Mutex};

/// what a crank has to get through: `lead` events placed and consumed beforehand (moves the ring's head),
/// then one event per entry of `seq` (index into the owners sorted by key)
#[derive(Clone, Debug)]
pub struct Case {
    pub world: usize,
    pub lead: usize,
    pub seq: Vec<usize>,
    /// 0: bids that rest and give back what they need not keep; 1: cancelled asks; 2: asks traded against by a bid of owner 0
    pub kind: usize,
}

pub struct Space {
    pub worlds: Vec<(World, Vec<usize>)>, // users in the order of their accounts' keys
    pub cases: Vec<Case>,
}

/// events in the queue of a market as the client lists it
pub const BIG: usize = ((1 << 20) - 32) / 88;
pub fn space(thorough: bool) -> Space {
    let mut worlds = vec![];
    for (users, events, perm) in &[(4, 128, false), (44, 140, false), (3, 128, true), (3, BIG, false)] {
        let mut w = World::new(Opt { users: *users, events: *events, perm: *perm, ..Opt::default() });
        let mut c = w.init.clone();
        for u in 0..*users {
            w.fresh_oo(&mut c, u);
            let mut i = w.r_init_oo(&w.oo[u], &w.users[u].pubkey());
            if *perm {
                i.accs.push((w.auth, true, false));
            }
            c.all(&[i]).expect("init oo");
        }
        w.init = c;
        let mut ix: Vec<usize> = (0..*users).collect();
        ix.sort_by_key(|&u| words(&w.oo[u]));
        worlds.push((w, ix));
    }
    let mut cases = vec![];
    // small queues: every sequence of owners, every position of the ring's head
    for (world, owners, cap) in &[(0usize, 3usize, 128usize), (2, 2, 128)] {
        let deep = if thorough { 7 } else { 5 };
        for lead in 0..*cap {
            // around the end of the ring and its start in full, elsewhere shorter
            let maxlen = if lead < 2 || lead + 8 >= *cap { deep } else { deep - 2 };
            for len in 0..=maxlen {
                let n = owners.pow(len as u32);
                for x in 0..n {
                    let mut y = x;
                    let seq: Vec<usize> = (0..len).map(|_| { let r = y % owners; y /= owners; r }).collect();
                    for kind in 0..3 {
                        cases.push(Case { world: *world, lead, seq: Vec::clone(&seq), kind });
                    }
                }
            }
            // up to the last place
            for len in &[maxlen + 1, 20, 63, 64, 126, 127, 128] {
                let len = *len;
                for r in 0..2usize {
                    if !thorough && len > 30 && lead % 5 != r {
                        continue;
                    }
                    for kind in 0..(if len * 4 <= *cap { 3 } else { 2 }) {
                        cases.push(Case { world: *world, lead, seq: (0..len).map(|i| (i * (r + 1) + r) % owners).collect(), kind });
                    }
                }
            }
        }
    }
    // a queue as large as the client makes them
    for lead in vec![0usize, 127, 128, 254, 255, 256, 257, 4_095, 4_096, 8_191, 8_192, BIG - 3, BIG - 2, BIG - 1] {
        for len in 1..=(if thorough { 4 } else { 3 }) {
            for x in 0..3usize.pow(len as u32) {
                let mut y = x;
                let seq: Vec<usize> = (0..len).map(|_| { let r = y % 3; y /= 3; r }).collect();
                for kind in 0..3 {
                    cases.push(Case { world: 3, lead, seq: seq.clone(), kind });
                }
            }
        }
    }
    // many owners: every rotation, both directions, one to three rounds
    let step = if thorough { 1 } else { 3 };
    for k in 1..=44usize {
        for r in (0..k).filter(|r| *r < 2 || r + 2 >= k || r % step == 0 || k >= 22 && k <= 34) {
            for dir in 0..2 {
                for rounds in 1..=(if thorough { 3 } else { 2 }) {
                    for lead in &[0usize, 137] {
                        if rounds * k > 140 {
                            continue;
                        }
                        let base: Vec<usize> = (0..k).map(|i| { let j = (i + r) % k; if dir == 0 { j } else { k - 1 - j } }).collect();
                        let mut seq = vec![];
                        for _ in 0..rounds {
                            seq.extend_from_slice(&base);
                        }
                        for kind in 0..(if rounds * k * 4 <= 140 { 3 } else { 2 }) {
                            cases.push(Case { world: 1, lead: *lead, seq: seq.clone(), kind });
                        }
                    }
                }
            }
        }
    }
    Space { worlds, cases }
}

fn place(w: &World, c: &mut Chain, u: usize, o: &serum_dex::instruction::NewOrderInstructionV3) -> Result<(), String> {
    let wal = if o.side == Side::Bid { w.pc[u] } else { w.coin[u] };
    c.all(&[w.r_place(&w.oo[u], &w.users[u].pubkey(), &wal, o)]).map_err(|e| format!("{:?}", e))
}

pub fn build(s: &Space, case: &Case) -> Result<Chain, String> {
    let (w, ix) = &s.worlds[case.world];
    let mut c = w.init.clone();
    // the ring's head may be anywhere
    let q = *w.m.event_q;
    let mut a = (*c.accs[&q]).clone();
    a.data[13..21].copy_from_slice(&(case.lead as u64).to_le_bytes());
    c.accs.insert(q, std::sync::Arc::new(a));
    for (n, &u) in case.seq.iter().enumerate() {
        let mut o = order(if case.kind == 0 { Side::Bid } else { Side::Ask }, if case.kind == 0 { 1 } else { 7 }, 1, n as u64 + 1);
        if case.kind == 0 {
            o.max_native_pc_qty_including_fees = nz(100 + n as u64 % 3);
        }
        place(w, &mut c, ix[u], &o)?;
    }
    let by = |u: usize| (w.oo[ix[u]], w.users[ix[u]].pubkey());
    match case.kind {
        1 => {
            for (n, &u) in case.seq.iter().enumerate() {
                let (oo, k) = by(u);
                c.all(&[w.r_cancel(&oo, &k, n as u64 + 1)]).map_err(|e| format!("{:?}", e))?;
            }
        }
        2 if !case.seq.is_empty() => {
            let n = case.seq.len() as u64;
            let mut o = order(Side::Bid, 7, n, 0);
            o.limit = 200;
            place(w, &mut c, ix[0], &o)?;
        }
        _ => (),
    }
    Ok(c)
}

/// None: the property held; Some: what failed
pub fn run(s: &Space, case: &Case, o: &mut Out) -> Option<String> {
    let c = match build(s, case) {
        Ok(c) => c,
        // the order book itself refuses: nothing to crank here
        Err(e) => return Some(format!("the queue cannot be set up: {}", e)),
    };
    let (w, _) = &s.worlds[case.world];
    let mut cur = c;
    loop {
        o.states += 1;
        let before = w.pending(&cur);
        let node = Arc::new(Mutex::new(Node::new(cur.clone())));
        let cl = client(&node);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crank::consume_events_instruction(&cl, &w.dex, &w.m, &w.coin[0], &w.pc[0])));
        o.transitions += 1;
        let ix = match r {
            Err(_) => return Some("the client panicked".into()),
            Ok(Err(e)) => return Some(format!("the client gave up: {}", e)),
            Ok(Ok(None)) if before.is_empty() => return None,
            Ok(Ok(None)) => return Some(format!("nothing to do although {} events are pending", before.len())),
            Ok(Ok(Some(_))) if before.is_empty() => return Some("an instruction for an empty queue".into()),
            Ok(Ok(Some(i))) => i,
        };
        let tx = Transaction::new_signed_with_payer(&[ix.clone()], Some(&w.payer.pubkey()), &[&w.payer], solana_sdk::hash::Hash::default());
        let len = bincode::serialize(&tx).unwrap().len();
        if len > PACKET {
            return Some(format!("{} pending events of {} owners: the transaction has {} bytes, more than the network takes", before.len(), distinct(&before), len));
        }
        let mut next = cur.clone();
        if let Err(e) = next.all(&[Ix::of(&ix)]) {
            return Some(format!("the order book refuses the instruction: {:?}", e));
        }
        o.transitions += 1;
        let after = w.pending(&next);
        let n = before.len() - after.len().min(before.len());
        if n == 0 || before[n..] != after[..] {
            return Some(format!("{} pending events of {} owners: the instruction consumed {}", before.len(), distinct(&before), n));
        }
        let mut want = cur.clone();
        want.all(&[w.r_consume(&cur, n as u16)]).unwrap();
        if want.accs != next.accs {
            return Some(format!("consuming {} events had another effect than it must have", n));
        }
        o.traces += 1;
        // the same by the sending routine: with the accounts found above
        let node = Arc::new(Mutex::new(Node::new(cur.clone())));
        let cl = client(&node);
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| crank::consume_events_once(&cl, &w.dex, &w.payer, meta(&ix), n, 0, *w.m.event_q)));
        o.transitions += 1;
        match r {
            Err(_) => return Some("the client panicked while sending".into()),
            Ok(Err(e)) => return Some(format!("sending {} accounts failed: {}", ix.accounts.len(), e)),
            Ok(Ok(_)) => (),
        }
        let nd = node.lock().unwrap();
        if nd.chain.accs != want.accs {
            return Some(format!("asked to consume {} events, the transaction had another effect", n));
        }
        cur = next;
    }
}
fn distinct(v: &[solana_program::pubkey::Pubkey]) -> usize {
    v.iter().collect::<std::collections::BTreeSet<_>>().len()
}

pub fn check(thorough: bool, r: &mut Report) {
    let s = space(thorough);
    r.worlds += s.worlds.len();
    r.par(s.cases.len(), |i, o| run(&s, &s.cases[i], o).map(|m| format!("case={}\n{:?}\n{}", i, s.cases[i], m)));
    r.note(format!("{} event queues: every sequence of up to {} owners (fewer away from the ends) at every position of a 128-event ring, fuller queues up to the last place, small ones at 14 positions of a ring of 11915 events, and 1 to 44 owners in rotated and reversed order; events of resting bids, of cancellations and of trades", s.cases.len(), if thorough { 7 } else { 5 }));
}
