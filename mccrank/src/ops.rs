//! C02, C03: histories of client operations, with a fault at every request, against the reference.
use crate::node::*;
use crate::wire::{client, Http};
use crate::world::*;
use crate::{Out, Report};
use crank::{Command, Opts};
use serum_common::client::{rpc, Cluster};
use serum_dex::instruction::*;
use serum_dex::matching::{OrderType, Side};
use solana_client::rpc_client::RpcClient;
use solana_program::{program_option::COption, pubkey::Pubkey, system_program, sysvar};
use solana_sdk::signature::{Keypair, Signer};
use std::collections::HashSet;
use std::sync::{Arc, Mutex};

pub type Ran = (Result<(), String>, Vec<Pubkey>);
/// how an operation is carried out by the client and what it must amount to
pub struct Op {
    pub label: String,
    pub run: Box<dyn Fn(&Via) -> Ran + Sync + Send>,
    /// reference: the transactions, given the keys the client chose
    pub want: Box<dyn Fn(&Chain, &[Pubkey]) -> Result<Chain, String> + Sync + Send>,
    /// keys used for exploring on where the client chooses keys at random
    pub canon: Vec<Pubkey>,
    /// over HTTP, through the command line entry point
    pub cli: bool,
}
pub struct Via<'a> {
    pub client: &'a RpcClient,
    pub url: String,
    pub pre: &'a Chain,
}
fn s<T, E: std::fmt::Display>(r: Result<T, E>) -> Result<T, String> {
    r.map_err(|e| e.to_string())
}
fn apply(c: &Chain, txs: &[Vec<Ix>]) -> Result<Chain, String> {
    let mut n = c.clone();
    for t in txs {
        n.all(t).map_err(|e| format!("{:?}", e))?;
    }
    Ok(n)
}

pub struct Outcome {
    pub res: Result<(), String>,
    pub keys: Vec<Pubkey>,
    pub post: Chain,
    pub log: Vec<String>,
}
thread_local! { static HTTP: std::cell::RefCell<Option<Http>> = std::cell::RefCell::new(None); }

/// `old`: what is finalized by then
pub fn exec(op: &Op, old: Option<&Chain>, pre: &Chain, fault: Option<(usize, Fault)>) -> Outcome {
    let mut n = Node::new(pre.clone());
    n.old = old.map(|c| c.accs.clone());
    n.fault = fault;
    let (node, url) = if op.cli {
        HTTP.with(|h| {
            let mut h = h.borrow_mut();
            if h.is_none() {
                *h = Some(Http::start(Node::new(pre.clone())));
            }
            let h = h.as_ref().unwrap();
            *h.node.lock().unwrap() = n;
            (h.node.clone(), h.url.clone())
        })
    } else {
        (Arc::new(Mutex::new(n)), String::new())
    };
    let cl = client(&node);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (op.run)(&Via { client: &cl, url, pre })));
    let n = node.lock().unwrap();
    match r {
        // a client that panics gives up with an error for its user
        Err(_) => Outcome { res: Err("panic".into()), keys: vec![], post: n.chain.clone(), log: n.log.clone() },
        Ok((res, mut keys)) => {
            if op.cli {
                // commands do not return the keys they chose
                keys = if op.canon.len() == 8 { listed(pre, &n.chain, &pre.dex) } else { n.chain.accs.keys().filter(|k| !pre.accs.contains_key(*k)).cloned().collect() };
            }
            Outcome { res, keys, post: n.chain.clone(), log: n.log.clone() }
        }
    }
}

/// compares one execution with the reference; Ok: the reference successor (if any)
pub fn judge(op: &Op, pre: &Chain, x: &Outcome, faulty: bool) -> Result<(), String> {
    let canon = (op.want)(pre, &op.canon);
    match &x.res {
        Ok(()) => {
            let want = match (op.want)(pre, &x.keys) {
                Ok(w) => w,
                Err(e) => return Err(format!("success reported although it must be refused ({})", e)),
            };
            if want.accs != x.post.accs {
                return Err(format!("success reported, but the effect is another one: {}", diff(&want, &x.post)));
            }
        }
        Err(e) => {
            if !faulty && canon.is_ok() {
                return Err(format!("failed ({}) although nothing stands in the way", e));
            }
            if x.post.accs == pre.accs {
                if e == "panic" && canon.is_ok() {
                    return Err("the client panicked".into());
                }
                return Ok(());
            }
            if !faulty {
                return Err(format!("refused ({}), yet something changed: {}", e, diff(pre, &x.post)));
            }
            // the answer got lost: then all of it happened, or (several transactions) nobody else is affected
            let fresh: Vec<Pubkey> = x.post.accs.keys().filter(|k| !pre.accs.contains_key(*k)).cloned().collect();
            if op.canon.len() <= 1 {
                let ok = (op.want)(pre, &fresh).map_or(false, |w| w.accs == x.post.accs);
                if !ok {
                    return Err(format!("an operation that failed half-way left another effect: {}", diff(pre, &x.post)));
                }
            } else {
                let touched: Vec<&Pubkey> = pre.accs.iter().filter(|(k, v)| x.post.accs.get(*k) != Some(*v)).map(|x| x.0).collect();
                if touched.len() > 1 {
                    return Err(format!("an operation that failed half-way touched others: {}", diff(pre, &x.post)));
                }
            }
        }
    }
    Ok(())
}
fn canon_err(op: &Op, pre: &Chain) -> bool {
    (op.want)(pre, &op.canon).is_err()
}
pub fn diff(a: &Chain, b: &Chain) -> String {
    let mut v = vec![];
    for (k, x) in &a.accs {
        match b.accs.get(k) {
            None => v.push(format!("{} missing", k)),
            Some(y) if x != y => {
                let at = x.data.iter().zip(&y.data).position(|(p, q)| p != q);
                v.push(format!("{}: lamports {} / {}, size {} / {}, first difference at byte {:?}", k, x.lam, y.lam, x.data.len(), y.data.len(), at))
            }
            _ => (),
        }
    }
    for k in b.accs.keys() {
        if !a.accs.contains_key(k) {
            v.push(format!("{} new", k));
        }
    }
    v.truncate(4);
    v.join("; ")
}

/// breadth-first over all histories of `ops`; faults at every request up to depth `fd`
pub fn explore(name: &str, r: &mut Report, init: &Chain, ops: &[Op], depth: usize, fd: usize) {
    let mut seen: HashSet<u128> = HashSet::new();
    seen.insert(init.hash());
    let mut front: Vec<(Chain, Vec<usize>)> = vec![(init.clone(), vec![])];
    let (s0, t0) = (r.out.states, r.out.transitions);
    let mut faults = 0u64;
    for d in 0..depth {
        let nexts: Mutex<Vec<(usize, usize, Chain)>> = Mutex::new(vec![]);
        let fl = std::sync::atomic::AtomicUsize::new(0);
        let last = d + 1 == depth;
        let fr = &front;
        r.par(fr.len() * ops.len(), |i, o| {
            let (si, oi) = (i / ops.len(), i % ops.len());
            let (pre, path) = &fr[si];
            let op = &ops[oi];
            if oi == 0 {
                o.states += 1;
            }
            let x = exec(op, Some(init), pre, None);
            o.transitions += 1;
            let tell = |m: String, f: Option<(usize, Fault)>| {
                let mut t = format!("scenario={}\npath={:?}+{}\n", name, path, oi);
                for p in path {
                    t.push_str(&format!("then {}\n", ops[*p].label));
                }
                t.push_str(&format!("then {}{}\n{}", op.label, f.map_or(String::new(), |f| format!(" with request {} {:?}", f.0, f.1)), m));
                t
            };
            if let Err(m) = judge(op, pre, &x, false) {
                return Some(tell(m, None));
            }
            o.traces += 1;
            if d < fd {
                for (k, m) in x.log.iter().enumerate() {
                    for f in &FAULTS {
                        if *f == Fault::Drop && (m != "sendTransaction" || op.cli) || *f == Fault::Fork && (m != "sendTransaction" || d > 0 || canon_err(op, pre)) {
                            continue;
                        }
                        let y = exec(op, Some(init), pre, Some((k, *f)));
                        fl.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                        o.transitions += 1;
                        if let Err(m) = judge(op, pre, &y, true) {
                            return Some(tell(m, Some((k, *f))));
                        }
                    }
                }
            }
            if !last && x.res.is_ok() && !op.canon.iter().any(|k| pre.accs.contains_key(k)) {
                if let Ok(n) = (op.want)(pre, &op.canon) {
                    nexts.lock().unwrap().push((si, oi, n));
                }
            }
            None
        });
        faults += fl.load(std::sync::atomic::Ordering::Relaxed) as u64;
        if r.bad.is_some() || !r.complete {
            return;
        }
        let mut v = nexts.into_inner().unwrap();
        v.sort_by_key(|x| (x.0, x.1));
        let mut nf = vec![];
        for (si, oi, c) in v {
            if seen.insert(c.hash()) {
                let mut p = front[si].1.clone();
                p.push(oi);
                nf.push((c, p));
            }
        }
        if nf.is_empty() {
            break;
        }
        front = nf;
    }
    let (a, b) = (r.out.states - s0, r.out.transitions - t0);
    r.worlds += 1;
    if let Some((_, p)) = front.get(front.len() / 2) {
        r.samples.push(format!("{}: {}", name, p.iter().map(|i| ops[*i].label.clone()).collect::<Vec<_>>().join(", then ")));
    }
    r.note(format!("{}: {} operations, depth {}: {} states, {} executions of which {} with a fault", name, ops.len(), depth, a, b, faults));
}

// ------------------------------------------------------------------ trading

pub struct Keys {
    pub dir: String,
}
impl Keys {
    pub fn new() -> Keys {
        let dir = format!("{}/mccrank.{}", std::env::temp_dir().display(), std::process::id());
        std::fs::create_dir_all(&dir).unwrap();
        Keys { dir }
    }
    pub fn file(&self, k: &Keypair) -> String {
        let p = format!("{}/{}.json", self.dir, k.pubkey());
        let v: Vec<u8> = k.to_bytes().to_vec();
        std::fs::write(&p, serde_json::to_string(&v).unwrap()).unwrap();
        p
    }
}
impl Drop for Keys {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.dir);
    }
}
fn cli(url: &str, command: Command) -> Result<(), String> {
    // through the parser, as a user would
    s(crank::start(crate::misc::parsed(url, &command)?))
}

pub fn trading(w: &'static World, keys: &Keys, wide: bool) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let m = &w.m;
    let mut place = |u: usize, oo: Option<usize>, wal: Pubkey, o: NewOrderInstructionV3, l: &str| {
        let o2 = o.clone();
        let k = dup(&w.users[u]);
        let kp = k.pubkey();
        let known = oo.map(|x| w.oo[x]);
        v.push(Op {
            label: format!("user {} places {} {} ({})", u, if o.side == Side::Bid { "bid" } else { "ask" }, l, match oo { Some(x) => format!("account {}", x), None => "new account".into() }),
            run: Box::new(move |via| {
                let mut orders = known;
                let r = s(crank::place_order(via.client, &w.dex, &k, &wal, m, &mut orders, o.clone()));
                (r, if known.is_none() { orders.into_iter().collect() } else { vec![] })
            }),
            want: Box::new(move |c, g| {
                let mut t = vec![];
                let k = match known {
                    Some(k) => k,
                    None => {
                        let k = *g.get(0).ok_or("no key")?;
                        t.push(w.r_create(&kp, &k, OO_LEN, &w.dex));
                        k
                    }
                };
                t.push(w.r_place(&k, &kp, &wal, &o2));
                apply(c, &[t])
            }),
            canon: if oo.is_none() { vec![w.oo[u]] } else { vec![] },
            cli: false,
        });
    };
    let ord = |side, p, q, c| order(side, p, q, c);
    for u in 0..2 {
        place(u, None, w.pc[u], ord(Side::Bid, 10, 2, 1), "2 at 10");
        place(u, Some(u), w.coin[u], ord(Side::Ask, 10, 1, 2), "1 at 10");
        place(u, Some(u), w.pc[u], ord(Side::Bid, 11, 1, 3), "1 at 11");
        if wide {
            place(u, Some(u), w.coin[u], NewOrderInstructionV3 { order_type: OrderType::ImmediateOrCancel, ..ord(Side::Ask, 9, 3, 4) }, "3 at 9 immediate");
            place(u, Some(u), w.pc[u], NewOrderInstructionV3 { max_ts: NOW - 1, ..ord(Side::Bid, 11, 1, 5) }, "expired");
            place(u, Some(u), w.pc[u], NewOrderInstructionV3 { limit: 0, self_trade_behavior: SelfTradeBehavior::AbortTransaction, ..ord(Side::Bid, 12, 1, 6) }, "1 at 12, no match");
            place(u, None, w.coin[u], ord(Side::Ask, 12, 3, 1), "3 at 12");
        }
    }
    place(0, Some(1), w.pc[0], ord(Side::Bid, 10, 1, 7), "into another's account");
    place(0, Some(0), w.pc[1], ord(Side::Bid, 10, 50, 7), "out of another's wallet");
    let mut push = |label: String, cl: bool, run: Box<dyn Fn(&Via) -> Ran + Sync + Send>, want: Box<dyn Fn(&Chain, &[Pubkey]) -> Result<Chain, String> + Sync + Send>, canon: Vec<Pubkey>| {
        v.push(Op { label, run, want, canon, cli: cl });
    };
    for u in 0..2usize {
        for oo in 0..2usize {
            let k = dup(&w.users[u]);
            let kp = k.pubkey();
            let ids: &[u64] = if oo == u { &[1, 2, 9] } else { &[1] };
            for &id in ids {
                let k = dup(&k);
                push(
                    format!("user {} cancels {} of account {}", u, id, oo),
                    false,
                    Box::new(move |via| (s(crank::cancel_order_by_client_order_id(via.client, &w.dex, &k, m, &w.oo[oo], id)), vec![])),
                    Box::new(move |c, _| apply(c, &[vec![w.r_cancel(&w.oo[oo], &kp, id)]])),
                    vec![],
                );
            }
            let lists: &[[u64; 8]] = if oo == u { &[[1, 2, 3, 0, 0, 0, 0, 0], [9, 3, 3, 0, 1, 0, 0, 8], [0; 8]] } else { &[[1, 2, 3, 4, 5, 6, 7, 8], [0; 8]] };
            for ids in lists {
                let (k, ids) = (dup(&k), *ids);
                push(
                    format!("user {} cancels {:?} of account {}", u, ids, oo),
                    false,
                    Box::new(move |via| (s(crank::cancel_orders_by_client_order_ids(via.client, &w.dex, &k, m, &w.oo[oo], ids)), vec![])),
                    Box::new(move |c, _| apply(c, &[vec![w.r_cancels(&w.oo[oo], &kp, ids)]])),
                    vec![],
                );
            }
            let k2 = dup(&k);
            push(
                format!("user {} closes account {}", u, oo),
                false,
                Box::new(move |via| (s(crank::close_open_orders(via.client, &w.dex, &k2, m, &w.oo[oo])), vec![])),
                Box::new(move |c, _| apply(c, &[vec![w.r_close(&w.oo[oo], &kp)]])),
                vec![],
            );
            // settlement by command line: own key, or a separate payer
            for sep in 0..3 {
                if sep > 0 && u != oo {
                    continue;
                }
                let (fu, fp) = (keys.file(&k), keys.file(if sep == 1 { &w.payer } else { &w.users[1 - u] }));
                push(
                    format!("user {} settles account {}{}", u, oo, ["", ", paid for by another", ", paid for by the other"][sep]),
                    true,
                    Box::new(move |via| {
                        let c = Command::SettleFunds {
                            payer: if sep > 0 { fp.clone() } else { fu.clone() },
                            dex_program_id: w.dex,
                            market: *m.market,
                            orders: w.oo[oo],
                            coin_wallet: w.coin[u],
                            pc_wallet: w.pc[u],
                            signer: if sep > 0 { Some(fu.clone()) } else { None },
                        };
                        (cli(&via.url, c), vec![])
                    }),
                    Box::new(move |c, _| apply(c, &[vec![w.r_settle(&w.oo[oo], &kp, &w.coin[u], &w.pc[u])]])),
                    vec![],
                );
            }
        }
        let k = dup(&w.users[u]);
        let kp = k.pubkey();
        for known in &[true, false] {
            let (k, known) = (dup(&k), *known);
            push(
                format!("user {} initializes {}", u, if known { "its account" } else { "a new account" }),
                false,
                Box::new(move |via| {
                    let mut o = if known { Some(w.oo[u]) } else { None };
                    let r = s(crank::init_open_orders(via.client, &w.dex, &k, m, &mut o));
                    (r, if known { vec![] } else { o.into_iter().collect() })
                }),
                Box::new(move |c, g| {
                    if known {
                        return apply(c, &[vec![w.r_init_oo(&w.oo[u], &kp)]]);
                    }
                    let n = *g.get(0).ok_or("no key")?;
                    apply(c, &[vec![w.r_create(&kp, &n, OO_LEN, &w.dex), w.r_init_oo(&n, &kp)]])
                }),
                if known { vec![] } else { vec![w.oo[u]] },
            );
        }
    }
    // nothing is matched any more: accepted without effect
    push(
        "orders are matched".into(),
        false,
        Box::new(move |via| (s(crank::match_orders(via.client, &w.dex, &w.payer, m, &w.coin[0], &w.pc[0])), vec![])),
        Box::new(move |c, _| Ok(c.clone())),
        vec![],
    );
    push(
        "orders are matched at the expense of somebody without means".into(),
        false,
        Box::new(move |via| (s(crank::match_orders(via.client, &w.dex, &kp(7777), m, &w.coin[0], &w.pc[0])), vec![])),
        Box::new(move |_, _| Err("no funds".into())),
        vec![],
    );
    let fp = keys.file(&w.payer);
    push(
        "orders are matched by command".into(),
        true,
        Box::new(move |via| (cli(&via.url, Command::MatchOrders { dex_program_id: w.dex, payer: fp.clone(), market: *m.market, coin_wallet: w.coin[0], pc_wallet: w.pc[0] }), vec![])),
        Box::new(move |c, _| Ok(c.clone())),
        vec![],
    );
    push(
        "the event queue is printed".into(),
        true,
        Box::new(move |via| (cli(&via.url, Command::PrintEventQueue { dex_program_id: w.dex, market: *m.market }), vec![])),
        Box::new(move |c, _| Ok(c.clone())),
        vec![],
    );
    // everything pending is consumed
    push(
        "events are consumed".into(),
        false,
        Box::new(move |via| {
            let r = (|| -> Result<(), String> {
                if let Some(i) = s(crank::consume_events_instruction(via.client, &w.dex, m, &w.coin[0], &w.pc[0]))? {
                    let h = s(via.client.get_latest_blockhash())?;
                    let t = solana_sdk::transaction::Transaction::new_signed_with_payer(&[i], Some(&w.payer.pubkey()), &[&w.payer], h);
                    s(rpc::send_txn(via.client, &t, false))?;
                }
                Ok(())
            })();
            (r, vec![])
        }),
        Box::new(move |c, _| {
            let n = w.pending(c).len() as u16;
            if n == 0 {
                return Ok(c.clone());
            }
            let k: std::collections::BTreeSet<Pubkey> = w.pending(c).into_iter().collect();
            // how many at a time is the client's choice as long as there is progress; here everything fits
            let n = n.min(k.len() as u16 + 4);
            apply(c, &[vec![w.r_consume(c, n)]])
        }),
        vec![],
    );
    v
}
/// every value of every field of an order, one or two fields at a time; cancellation by every client id
pub fn params(w: &'static World, pairs: bool) -> Vec<Op> {
    let m = &w.m;
    type Edit = (String, Box<dyn Fn(&mut NewOrderInstructionV3)>);
    let mut v: Vec<Op> = vec![];
    let ids: Vec<u64> = vec![0, 1, 2, 3, 255, 256, 65_536, u32::MAX as u64, 1 << 32, (1 << 53) + 1, 1 << 63, u64::MAX - 1, u64::MAX];
    let fields = || {
        let mut f: Vec<Vec<Edit>> = vec![];
        f.push(vec![1u64, 2, 8, 9, 10, 11, 12, 13, 255, 256, 65_536, (1 << 32) + 9, (1 << 53) + 1, u64::MAX].into_iter().map(|x| (format!("price {}", x), Box::new(move |o: &mut NewOrderInstructionV3| o.limit_price = nz(x)) as Box<dyn Fn(&mut NewOrderInstructionV3)>)).collect());
        f.push(vec![2u64, 3, 100, 256, 500, 501, 65_536, (1 << 32) + 1, (1 << 53) + 1, u64::MAX].into_iter().map(|x| (format!("quantity {}", x), Box::new(move |o: &mut NewOrderInstructionV3| o.max_coin_qty = nz(x)) as Box<dyn Fn(&mut NewOrderInstructionV3)>)).collect());
        f.push(vec![1u64, 99, 100, 101, 1_000, 1_003, 1_004, 1_005, 1_100, 1_204, 65_536 * 3 + 1, 999_999, 1_000_000, 1_000_001, (1 << 32) + 1_100, (1 << 53) + 1, u64::MAX].into_iter().map(|x| (format!("funds {}", x), Box::new(move |o: &mut NewOrderInstructionV3| o.max_native_pc_qty_including_fees = nz(x)) as Box<dyn Fn(&mut NewOrderInstructionV3)>)).collect());
        f.push(ids.iter().map(|&x| (format!("id {}", x), Box::new(move |o: &mut NewOrderInstructionV3| o.client_order_id = x) as Box<dyn Fn(&mut NewOrderInstructionV3)>)).collect());
        f.push(vec![0u16, 1, 2, 255, 256, 65_535].into_iter().map(|x| (format!("limit {}", x), Box::new(move |o: &mut NewOrderInstructionV3| o.limit = x) as Box<dyn Fn(&mut NewOrderInstructionV3)>)).collect());
        f.push(vec![i64::MIN, -NOW, -1, 0, 1, NOW - 1, NOW, NOW + 1, NOW + (1 << 32)].into_iter().map(|x| (format!("until {}", x), Box::new(move |o: &mut NewOrderInstructionV3| o.max_ts = x) as Box<dyn Fn(&mut NewOrderInstructionV3)>)).collect());
        f.push(vec![(1, OrderType::ImmediateOrCancel), (2, OrderType::PostOnly)].into_iter().map(|(n, x)| (format!("type {}", n), Box::new(move |o: &mut NewOrderInstructionV3| o.order_type = x) as Box<dyn Fn(&mut NewOrderInstructionV3)>)).collect());
        f.push(vec![(1, SelfTradeBehavior::CancelProvide), (2, SelfTradeBehavior::AbortTransaction)].into_iter().map(|(n, x)| (format!("self-trade {}", n), Box::new(move |o: &mut NewOrderInstructionV3| o.self_trade_behavior = x) as Box<dyn Fn(&mut NewOrderInstructionV3)>)).collect());
        f
    };
    let f = fields();
    let mut lists: Vec<Vec<(usize, usize)>> = vec![];
    for a in 0..f.len() {
        for i in 0..f[a].len() {
            lists.push(vec![(a, i)]);
            for b in a + 1..f.len() {
                for j in 0..f[b].len() {
                    if pairs || a >= 6 || b >= 6 {
                        lists.push(vec![(a, i), (b, j)]);
                    }
                }
            }
        }
    }
    for u in 0..2usize {
        for side in &[Side::Bid, Side::Ask] {
            for l in &lists {
                let mut o = order(*side, if *side == Side::Bid { 12 } else { 9 }, 1, 77);
                let mut label = format!("user {} places {}", u, if *side == Side::Bid { "bid" } else { "ask" });
                for (a, i) in l {
                    (f[*a][*i].1)(&mut o);
                    label.push_str(&format!(", {}", f[*a][*i].0));
                }
                let (k, o2) = (dup(&w.users[u]), o.clone());
                let kp = k.pubkey();
                let wal = if *side == Side::Bid { w.pc[u] } else { w.coin[u] };
                v.push(Op {
                    label,
                    run: Box::new(move |via| (s(crank::place_order(via.client, &w.dex, &k, &wal, m, &mut Some(w.oo[u]), o.clone())), vec![])),
                    want: Box::new(move |c, _| apply(c, &[vec![w.r_place(&w.oo[u], &kp, &wal, &o2)]])),
                    canon: vec![],
                    cli: false,
                });
            }
        }
    }
    for &id in &ids {
        for n in 0..9usize {
            let k = dup(&w.users[0]);
            let kp = k.pubkey();
            v.push(if n == 8 {
                Op {
                    label: format!("cancels {}", id),
                    run: Box::new(move |via| (s(crank::cancel_order_by_client_order_id(via.client, &w.dex, &k, m, &w.oo[0], id)), vec![])),
                    want: Box::new(move |c, _| apply(c, &[vec![w.r_cancel(&w.oo[0], &kp, id)]])),
                    canon: vec![],
                    cli: false,
                }
            } else {
                let mut l = [0u64; 8];
                l[n] = id;
                l[(n + 3) % 8] = 1;
                Op {
                    label: format!("cancels {:?}", l),
                    run: Box::new(move |via| (s(crank::cancel_orders_by_client_order_ids(via.client, &w.dex, &k, m, &w.oo[0], l)), vec![])),
                    want: Box::new(move |c, _| apply(c, &[vec![w.r_cancels(&w.oo[0], &kp, l)]])),
                    canon: vec![],
                    cli: false,
                }
            });
        }
    }
    v
}
/// commands for a market that is none
pub fn impostors(w: &'static World, keys: &Keys, c: &Chain) -> Vec<Op> {
    let mut v = vec![];
    let mut k: Vec<Pubkey> = c.accs.keys().cloned().collect();
    k.push(Pubkey::new(&[77; 32]));
    let fp = keys.file(&w.payer);
    for x in k.into_iter().filter(|x| *x != *w.m.market) {
        for n in 0..4 {
            let fp = fp.clone();
            v.push(Op {
                label: format!("{} for market {}", ["match", "print", "settle", "crank"][n], x),
                run: Box::new(move |via| {
                    let c = match n {
                        0 => Command::MatchOrders { dex_program_id: w.dex, payer: fp.clone(), market: x, coin_wallet: w.coin[0], pc_wallet: w.pc[0] },
                        1 => Command::PrintEventQueue { dex_program_id: w.dex, market: x },
                        2 => Command::SettleFunds { payer: fp.clone(), dex_program_id: w.dex, market: x, orders: w.oo[0], coin_wallet: w.coin[0], pc_wallet: w.pc[0], signer: None },
                        _ => Command::SettleFunds { payer: fp.clone(), dex_program_id: w.dex, market: x, orders: w.oo[0], coin_wallet: w.coin[0], pc_wallet: w.pc[0], signer: Some(fp.clone()) },
                    };
                    (cli(&via.url, c), vec![])
                }),
                want: Box::new(|_, _| Err("not a market".into())),
                canon: vec![],
                cli: true,
            });
        }
    }
    v
}

// ------------------------------------------------------------------ listing

fn list_ops(w: &'static World, keys: &Keys) -> Vec<Op> {
    let mut v = vec![];
    let poor = kp(7777);
    for (p, who) in &[(dup(&w.payer), "the payer"), (poor, "somebody without means")] {
        for (cl, pl) in &[(1u64, 1u64), (0, 7), (7, 0), (10, 100), (1_000_000, 10_000), (u64::MAX, 3), (7, u64::MAX), (5, 10_000), (1_000_000, 5)] {
            for swap in 0..4 {
                let (swap, cli) = (swap % 2, swap > 1);
                let (cm, pm) = if swap == 0 { (w.coin_mint, w.pc_mint) } else { (w.pc_mint, w.coin_mint) };
                let (p, cl, pl) = (dup(p), *cl, *pl);
                let fp = keys.file(&p);
                let pk = p.pubkey();
                v.push(Op {
                    label: format!("{} lists a market {}/{} with lots {}, {}{}", who, cm, pm, cl, pl, if cli { " by command" } else { "" }),
                    run: Box::new(move |via| if cli {
                        // the default lot sizes are not given
                        let lots = (Some(cl).filter(|x| *x != 1_000_000), Some(pl).filter(|x| *x != 10_000));
                        (crate::ops::cli(&via.url, Command::ListMarket { payer: fp.clone(), dex_program_id: w.dex, coin_mint: cm, pc_mint: pm, coin_lot_size: lots.0, pc_lot_size: lots.1 }), vec![])
                    } else { match crank::list_market(via.client, &w.dex, &p, &cm, &pm, cl, pl) {
                        Err(e) => (Err(e.to_string()), vec![]),
                        Ok(m) => (Ok(()), vec![*m.market, *m.req_q, *m.event_q, *m.bids, *m.asks, *m.coin_vault, *m.pc_vault, *m.vault_signer_key]),
                    } }),
                    want: Box::new(move |c, g| {
                        if g.len() != 8 {
                            return Err("keys".into());
                        }
                        if c.lam(&pk) == 0 {
                            return Err("no funds".into());
                        }
                        let (market, vs) = (g[0], g[7]);
                        let nonce = (0u64..256).find(|n| Pubkey::create_program_address(&[market.as_ref(), &n.to_le_bytes()], &w.dex).ok() == Some(vs)).ok_or("vault signer")?;
                        let mut txs = vec![];
                        for (v, mint) in &[(g[5], cm), (g[6], pm)] {
                            let i = spl_token::instruction::initialize_account(&spl_token::ID, v, mint, &vs).unwrap();
                            txs.push(vec![w.r_create(&pk, v, 165, &spl_token::ID), Ix::of(&i)]);
                        }
                        let mut t = vec![];
                        for (k, len) in g[..5].iter().zip(&[376usize, 640, 1 << 20, 1 << 16, 1 << 16]) {
                            t.push(w.r_create(&pk, k, len + 12, &w.dex));
                        }
                        let mut accs: Vec<(Pubkey, bool, bool)> = g[..7].iter().map(|k| (*k, false, true)).collect();
                        for k in &[cm, pm, sysvar::rent::ID] {
                            accs.push((*k, false, false));
                        }
                        t.push(Ix { prog: w.dex, accs, data: MarketInstruction::InitializeMarket(InitializeMarketInstruction { coin_lot_size: cl, pc_lot_size: pl, fee_rate_bps: 0, vault_signer_nonce: nonce, pc_dust_threshold: 100 }).pack() });
                        txs.push(t);
                        apply(c, &txs)
                    }),
                    canon: canon_listing(w),
                    cli,
                });
            }
        }
    }
    v
}
/// the keys of a market created since `pre`, as the market itself records them
fn listed(pre: &Chain, c: &Chain, dex: &Pubkey) -> Vec<Pubkey> {
    let m = c.accs.iter().find(|(k, a)| !pre.accs.contains_key(*k) && a.owner == *dex && a.data.len() == 388);
    let (k, d) = match m {
        Some((k, a)) => (*k, &a.data),
        None => return vec![],
    };
    let at = |o: usize| Pubkey::new(&d[o..o + 32]);
    let mut n = [0u8; 8];
    n.copy_from_slice(&d[45..53]);
    let mut v = vec![k, at(221), at(253), at(285), at(317), at(117), at(165)];
    v.extend(Pubkey::create_program_address(&[k.as_ref(), &n], dex).ok());
    v
}
fn canon_listing(w: &World) -> Vec<Pubkey> {
    let mut v: Vec<Pubkey> = (0..7u64).map(|i| kp(50_000 + i).pubkey()).collect();
    let vs = (0u64..256).find_map(|n| Pubkey::create_program_address(&[v[0].as_ref(), &n.to_le_bytes()], &w.dex).ok()).unwrap();
    v.push(vs);
    v
}

/// the complete demonstration: everything from mints to closing, on an empty chain
fn shebang(r: &mut Report) {
    if r.bad.is_some() {
        return;
    }
    let keys = Keys::new();
    let w: &'static World = Box::leak(Box::new(World::new(Opt::default())));
    let real = std::time::SystemTime::now().duration_since(std::time::SystemTime::UNIX_EPOCH).map_or(0, |d| d.as_secs() as i64);
    CLOCK.store(real, std::sync::atomic::Ordering::Relaxed);
    let f = keys.file(&w.payer);
    let run = |fault| {
        let f = f.clone();
        let op = Op {
            label: "the complete demonstration".into(),
            run: Box::new(move |via| (cli(&via.url, Command::WholeShebang { payer: f.clone(), dex_program_id: w.dex }), vec![])),
            want: Box::new(|c, _| Ok(c.clone())),
            canon: vec![],
            cli: true,
        };
        exec(&op, None, &w.init, fault)
    };
    let x = run(None);
    let bad = (|| -> Result<(), String> {
        x.res.clone()?;
        let k = listed(&w.init, &x.post, &w.dex);
        if k.len() != 8 {
            return Err("no market".into());
        }
        if x.post.u64_at(&k[2], 21) != 0 {
            return Err("events are left".into());
        }
        let left: Vec<&Acct> = x.post.accs.iter().filter(|(q, a)| !w.init.accs.contains_key(*q) && a.owner == w.dex && a.data.len() == OO_LEN).map(|x| &**x.1).collect();
        if left.len() != 1 {
            return Err(format!("{} trading accounts are left instead of the bidder's", left.len()));
        }
        let tok: Vec<u64> = x.post.accs.iter().filter(|(q, a)| !w.init.accs.contains_key(*q) && a.owner == spl_token::ID && a.data.len() == 165 && !k.contains(q)).map(|(q, _)| x.post.bal(q)).collect();
        let mut tok = tok;
        tok.sort();
        let bid = 1_000_000_000_000_000 - x.post.bal(&k[6]);
        if tok != vec![bid, 1_000_000_000_000_000] || x.post.bal(&k[5]) != 0 || x.post.bal(&k[6]) > 500_000 {
            return Err(format!("the wallets have {:?}, the vaults {} and {}", tok, x.post.bal(&k[5]), x.post.bal(&k[6])));
        }
        Ok(())
    })();
    let n = x.log.len();
    r.out.states += 1;
    r.out.transitions += n as u64;
    if let Err(e) = bad {
        r.bad = Some(format!("scenario=complete demonstration\n{}", e));
    } else {
        // a request that fails is never taken for a success
        r.par(n, |i, o| {
            for f in &[Fault::Lost, Fault::Refuse] {
                let y = run(Some((i, *f)));
                o.transitions += y.log.len() as u64;
                let done = y.post.accs.len() == x.post.accs.len();
                if y.res.is_ok() && !done {
                    return Some(format!("scenario=complete demonstration\nsuccess although request {} ({}) failed", i, x.log[i]));
                }
            }
            None
        });
        r.note(format!("complete demonstration: {} requests, each failing in two ways", n));
    }
    r.worlds += 1;
    CLOCK.store(NOW, std::sync::atomic::Ordering::Relaxed);
}

/// orders on the book and free funds
fn busy(w: &World, c: &Chain, perm: bool) -> Chain {
    let mut rich = c.clone();
    if !perm {
        for u in 0..2 {
            w.fresh_oo(&mut rich, u);
        }
    }
    for (u, o) in &[(0usize, order(Side::Bid, 10, 3, 1)), (1, order(Side::Ask, 10, 1, 2)), (1, order(Side::Ask, 12, 2, 1)), (0, order(Side::Bid, 9, 1, 3))] {
        let wal = if o.side == Side::Bid { w.pc[*u] } else { w.coin[*u] };
        let i = w.r_place(&w.oo[*u], &w.users[*u].pubkey(), &wal, o);
        rich.all(&[i]).expect("rich");
    }
    rich
}
pub fn check_trading(thorough: bool, r: &mut Report) {
    let keys = Keys::new();
    for perm in &[false, true] {
        let w: &'static World = Box::leak(Box::new(World::new(Opt { perm: *perm, ..Opt::default() })));
        let mut c = w.init.clone();
        if *perm {
            for u in 0..2 {
                w.fresh_oo(&mut c, u);
                let mut i = w.r_init_oo(&w.oo[u], &w.users[u].pubkey());
                i.accs.push((w.auth, true, false));
                c.all(&[i]).expect("init");
            }
        }
        let ops = trading(w, &keys, false);
        explore(if *perm { "trading on a permissioned market" } else { "trading" }, r, &c, &ops, if thorough { 7 } else if *perm { 4 } else { 5 }, if thorough { 4 } else { 3 });
        let ops = trading(w, &keys, true);
        explore(if *perm { "trading, wide, on a permissioned market" } else { "trading, wide" }, r, &c, &ops, if thorough { 6 } else { 4 }, if thorough { 3 } else { 2 });
        // with orders on the book and free funds
        let rich = busy(w, &c, *perm);
        let ops = trading(w, &keys, false);
        explore(if *perm { "trading from a busy permissioned market" } else { "trading from a busy market" }, r, &rich, &ops, if thorough { 6 } else { 4 }, if thorough { 3 } else { 2 });
        let trade = ops;
        let ops = params(w, thorough || !*perm);
        let mut ids = rich.clone();
        for (n, id) in [255u64, 1 << 32, (1 << 53) + 1, u64::MAX].iter().enumerate() {
            let i = w.r_place(&w.oo[0], &w.users[0].pubkey(), &w.pc[0], &order(Side::Bid, 2 + n as u64, 1, *id));
            ids.all(&[i]).expect("ids");
        }
        explore(if *perm { "parameters on a permissioned market" } else { "parameters" }, r, &ids, &ops, 1, 0);
        // once the market is disabled, what is left can still be taken out
        let mut off = rich.clone();
        let mut a = (*off.accs[&*w.m.market]).clone();
        a.data[5] |= 1 << 7;
        off.accs.insert(*w.m.market, Arc::new(a));
        explore(if *perm { "trading on a disabled permissioned market" } else { "trading on a disabled market" }, r, &off, &trade, if thorough { 6 } else { 4 }, if thorough { 2 } else { 1 });
        // copies of the market at another address
        let mut rich = rich;
        let copy = rich.accs[&*w.m.market].clone();
        rich.accs.insert(Pubkey::new(&[79; 32]), copy.clone());
        rich.accs.insert(Pubkey::new(&[80; 32]), Arc::new(Acct { owner: system_program::ID, ..(*copy).clone() }));
        let ops = impostors(w, &keys, &rich);
        explore("commands for markets that are none", r, &rich, &ops, 1, 0);
        if !*perm {
            let ops = list_ops(w, &keys);
            explore("listing", r, &w.init, &ops, 1, 1);
        }
    }
    shebang(r);
}

// ------------------------------------------------------------------ accounts and tokens

pub fn check_tokens(thorough: bool, r: &mut Report) {
    let keys = Keys::new();
    let w: &'static World = Box::leak(Box::new(World::new(Opt::default())));
    let v = token_ops(w, &keys);
    explore("accounts and tokens", r, &w.init, &v, if thorough { 3 } else { 2 }, if thorough { 2 } else { 1 });
}
/// what the commands do with their parameters (C07)
pub fn check_commands(thorough: bool, r: &mut Report) {
    let keys = Keys::new();
    let w: &'static World = Box::leak(Box::new(World::new(Opt::default())));
    let rich = busy(w, &w.init, false);
    let mut ops: Vec<Op> = trading(w, &keys, false).into_iter().filter(|o| o.cli).collect();
    ops.extend(token_ops(w, &keys).into_iter().filter(|o| o.cli));
    explore("commands", r, &rich, &ops, if thorough { 3 } else { 2 }, 0);
    let ops: Vec<Op> = list_ops(w, &keys).into_iter().filter(|o| o.cli).collect();
    explore("listing by command", r, &w.init, &ops, 1, 0);
}
fn token_ops(w: &'static World, keys: &Keys) -> Vec<Op> {
    let mut v: Vec<Op> = vec![];
    let none = Pubkey::new(&[78; 32]);
    let slot = |i: u64| kp(60_000 + i).pubkey();
    let init_acc = |k: &Pubkey, mint: &Pubkey, owner: &Pubkey| Ix::of(&spl_token::instruction::initialize_account(&spl_token::ID, k, mint, owner).unwrap());
    let mint_to = |mint: &Pubkey, to: &Pubkey, auth: &Pubkey, n: u64| Ix::of(&spl_token::instruction::mint_to(&spl_token::ID, mint, to, auth, &[], n).unwrap());
    let mut i = 0;
    for mint in &[w.coin_mint, w.pc_mint, none, w.coin[0]] {
        for owner in &[w.users[1].pubkey(), w.payer.pubkey()] {
            let (mint, owner) = (*mint, *owner);
            i += 1;
            v.push(Op {
                label: format!("token account of {} for {}", mint, owner),
                run: Box::new(move |via| match rpc::create_token_account(via.client, &mint, &owner, &w.payer) {
                    Ok(k) => (Ok(()), vec![k.pubkey()]),
                    Err(e) => (Err(e.to_string()), vec![]),
                }),
                want: Box::new(move |c, g| {
                    let k = *g.get(0).ok_or("no key")?;
                    apply(c, &[vec![w.r_create(&w.payer.pubkey(), &k, 165, &spl_token::ID), init_acc(&k, &mint, &owner)]])
                }),
                canon: vec![slot(i)],
                cli: false,
            });
            // the pieces for somebody else's transaction
            let given = dup(&kp(61_000 + i));
            let gk = given.pubkey();
            v.push(Op {
                label: format!("instructions for a token account of {} for {}", mint, owner),
                run: Box::new(move |via| {
                    let r = (|| -> Result<(), String> {
                        let x = s(rpc::create_token_account_instructions(via.client, gk, &mint, &owner, &w.payer))?;
                        let h = s(via.client.get_latest_blockhash())?;
                        let t = solana_sdk::transaction::Transaction::new_signed_with_payer(&x, Some(&w.payer.pubkey()), &[&w.payer, &given], h);
                        s(rpc::send_txn(via.client, &t, false)).map(|_| ())
                    })();
                    (r, vec![])
                }),
                want: Box::new(move |c, _| apply(c, &[vec![w.r_create(&w.payer.pubkey(), &gk, 165, &spl_token::ID), init_acc(&gk, &mint, &owner)]])),
                canon: vec![],
                cli: false,
            });
        }
        // by command
        let mint = *mint;
        let u = dup(&w.users[0]);
        let uk = u.pubkey();
        let f = keys.file(&u);
        i += 1;
        v.push(Op {
            label: format!("command: token account of {}", mint),
            run: Box::new(move |via| (cli(&via.url, Command::InitializeTokenAccount { mint, owner_account: f.clone() }), vec![])),
            want: Box::new(move |c, g| {
                let k = *g.get(0).ok_or("no key")?;
                apply(c, &[vec![w.r_create(&uk, &k, 165, &spl_token::ID), init_acc(&k, &mint, &uk)]])
            }),
            canon: vec![slot(i)],
            cli: true,
        });
        for auth in &[dup(&w.minter), dup(&w.users[0])] {
            for q in &[0u64, 5, u64::MAX] {
                let (auth, q) = (dup(auth), *q);
                let ak = auth.pubkey();
                let (fa, fp) = (keys.file(&auth), keys.file(&w.payer));
                i += 1;
                let a2 = dup(&auth);
                v.push(Op {
                    label: format!("{} mints {} of {} to a new account", ak, q, mint),
                    run: Box::new(move |via| match rpc::mint_to_new_account(via.client, &w.payer, &a2, &mint, q) {
                        Ok(k) => (Ok(()), vec![k.pubkey()]),
                        Err(e) => (Err(e.to_string()), vec![]),
                    }),
                    want: Box::new(move |c, g| {
                        let k = *g.get(0).ok_or("no key")?;
                        let p = w.payer.pubkey();
                        apply(c, &[vec![w.r_create(&p, &k, 165, &spl_token::ID), init_acc(&k, &mint, &p), mint_to(&mint, &k, &ak, q)]])
                    }),
                    canon: vec![slot(i)],
                    cli: false,
                });
                for to in &[None, Some(w.coin[1]), Some(w.pc[1]), Some(none)] {
                    let (to, fa, fp) = (*to, fa.clone(), fp.clone());
                    i += 1;
                    v.push(Op {
                        label: format!("command: {} mints {} of {} to {:?}", ak, q, mint, to),
                        run: Box::new(move |via| (cli(&via.url, Command::Mint { payer: fp.clone(), signer: fa.clone(), mint_pubkey: mint, recipient: to, quantity: q }), vec![])),
                        want: Box::new(move |c, g| {
                            let p = w.payer.pubkey();
                            match to {
                                Some(k) => apply(c, &[vec![mint_to(&mint, &k, &ak, q)]]),
                                None => {
                                    let k = *g.get(0).ok_or("no key")?;
                                    apply(c, &[vec![w.r_create(&p, &k, 165, &spl_token::ID), init_acc(&k, &mint, &p), mint_to(&mint, &k, &ak, q)]])
                                }
                            }
                        }),
                        canon: if to.is_none() { vec![slot(i)] } else { vec![] },
                        cli: true,
                    });
                }
            }
        }
    }
    for dec in &[0u8, 6, 255] {
        for owner in &[w.payer.pubkey(), w.users[1].pubkey()] {
            let (dec, owner) = (*dec, *owner);
            let made = move |k: &Pubkey| {
                let x = spl_token::instruction::initialize_mint(&spl_token::ID, k, &owner, None, dec).unwrap();
                vec![w.r_create(&w.payer.pubkey(), k, 82, &spl_token::ID), Ix::of(&x)]
            };
            i += 1;
            v.push(Op {
                label: format!("new mint with {} decimals under {}", dec, owner),
                run: Box::new(move |via| match rpc::new_mint(via.client, &w.payer, &owner, dec) {
                    Ok((k, _)) => (Ok(()), vec![k.pubkey()]),
                    Err(e) => (Err(e.to_string()), vec![]),
                }),
                want: Box::new(move |c, g| apply(c, &[made(g.get(0).ok_or("no key")?)])),
                canon: vec![slot(i)],
                cli: false,
            });
            let mk = kp(62_000 + dec as u64);
            let mkk = mk.pubkey();
            let (fm, fp) = (keys.file(&mk), keys.file(&w.payer));
            v.push(Op {
                label: format!("the mint {} with {} decimals under {}", mkk, dec, owner),
                run: Box::new(move |via| (s(rpc::create_and_init_mint(via.client, &w.payer, &mk, &owner, dec)).map(|_| ()), vec![])),
                want: Box::new(move |c, _| apply(c, &[made(&mkk)])),
                canon: vec![],
                cli: false,
            });
            v.push(Op {
                label: format!("command: genesis of {} with {} decimals under {}", mkk, dec, owner),
                run: Box::new(move |via| (cli(&via.url, Command::Genesis { payer: fp.clone(), mint: fm.clone(), owner_pubkey: owner, decimals: dec }), vec![])),
                want: Box::new(move |c, _| apply(c, &[made(&mkk)])),
                canon: vec![],
                cli: true,
            });
        }
    }
    for (from, to, auth, n) in &[(0usize, 1usize, 0usize, 5u64), (0, 1, 0, 5_000), (0, 1, 0, 5_001), (0, 1, 1, 5), (1, 0, 1, 0), (0, 0, 0, 7)] {
        let (from, to, auth, n) = (w.coin[*from], w.coin[*to], dup(&w.users[*auth]), *n);
        let ak = auth.pubkey();
        v.push(Op {
            label: format!("{} transfers {} from {} to {}", ak, n, from, to),
            run: Box::new(move |via| (s(rpc::transfer(via.client, &from, &to, n, &auth, &w.payer)).map(|_| ()), vec![])),
            want: Box::new(move |c, _| {
                let x = spl_token::instruction::transfer(&spl_token::ID, &from, &to, &ak, &[], n).unwrap();
                apply(c, &[vec![Ix::of(&x)]])
            }),
            canon: vec![],
            cli: false,
        });
    }
    for (size, owner) in &[(0usize, w.dex), (100, spl_token::ID), (1 << 20, w.dex), (11 << 20, w.dex)] {
        let (size, owner) = (*size, *owner);
        i += 1;
        v.push(Op {
            label: format!("an account of {} bytes for {}", size, owner),
            run: Box::new(move |via| match rpc::create_account_rent_exempt(via.client, &w.payer, size, &owner) {
                Ok(k) => (Ok(()), vec![k.pubkey()]),
                Err(e) => (Err(e.to_string()), vec![]),
            }),
            want: Box::new(move |c, g| apply(c, &[vec![w.r_create(&w.payer.pubkey(), g.get(0).ok_or("no key")?, size, &owner)]])),
            canon: vec![slot(i)],
            cli: false,
        });
    }
    // reading
    for k in vec![w.coin[0], w.pc[1], w.coin_mint, none, w.users[0].pubkey(), *w.m.market] {
        for mint in &[false, true] {
            let mint = *mint;
            v.push(Op {
                label: format!("reads {} as a {}", k, if mint { "mint" } else { "token account" }),
                run: Box::new(move |via| {
                    let r = (|| -> Result<(), String> {
                        if mint {
                            let x: spl_token::state::Mint = s(rpc::get_token_account(via.client, &k))?;
                            let y = solana_program::program_pack::Pack::unpack_from_slice(via.pre.data(&k)).map(|y: spl_token::state::Mint| y.supply).unwrap_or(0);
                            return if x.supply == y && x.mint_authority == COption::Some(w.minter.pubkey()) { Ok(()) } else { Err("WRONG".into()) };
                        }
                        let x: spl_token::state::Account = s(rpc::get_token_account(via.client, &k))?;
                        let d = via.pre.data(&k);
                        if x.mint.as_ref() == &d[..32] && x.owner.as_ref() == &d[32..64] && x.amount == via.pre.bal(&k) {
                            Ok(())
                        } else {
                            Err("WRONG".into())
                        }
                    })();
                    (r, vec![])
                }),
                want: Box::new(move |c, _| {
                    if c.data(&k).len() == if mint { 82 } else { 165 } {
                        Ok(c.clone())
                    } else {
                        Err("of another kind".into())
                    }
                }),
                canon: vec![],
                cli: false,
            });
        }
    }
    v
}
