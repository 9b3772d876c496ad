//! The explored spaces: worlds, prefixes and operation alphabets.
use crate::abs::*;
use crate::explore::*;
use crate::setup::*;
use crate::spec::*;
use crate::world::*;

pub const L: u16 = 65535;
pub const ALL: u32 = 0xffff_ffff;
pub const NOTS: i64 = i64::MAX;

pub fn ord(side: Side, price: u64, qty: u64, pc: u64) -> New {
    New { side, price, qty, pc, ty: Ty::Limit, stb: Stb::Dec, cid: 0, limit: L, ts: NOTS }
}
/// limit order whose budget covers price and worst fee; most of them carry a client id of their own
pub fn lim(c: &Cfg, side: Side, price: u64, qty: u64) -> New {
    let mut n = ord(side, price, qty, if side == Bid { rich(c, price, qty) } else { u64::MAX });
    if (price ^ qty) % 4 != 3 {
        n.cid = (price.wrapping_mul(1000).wrapping_add(qty * 10 + (side == Bid) as u64)) | 1 << 40;
    }
    n
}
pub fn rich(c: &Cfg, price: u64, qty: u64) -> u64 {
    let n = price as u128 * qty as u128 * c.pc_lot as u128;
    (n + n / 2000 + 3) as u64
}
pub fn exact(c: &Cfg, price: u64, qty: u64) -> u64 {
    price * qty * c.pc_lot
}
fn cid(mut n: New, c: u64) -> New {
    n.cid = c;
    n
}
fn ty(mut n: New, t: Ty) -> New {
    n.ty = t;
    n
}
fn stb(mut n: New, t: Stb) -> New {
    n.stb = t;
    n
}
fn mlim(mut n: New, l: u16) -> New {
    n.limit = l;
    n
}
fn ts(mut n: New, t: i64) -> New {
    n.ts = t;
    n
}
pub const TYS: [Ty; 3] = [Ty::Limit, Ty::Ioc, Ty::Post];
pub const STBS: [Stb; 3] = [Stb::Dec, Stb::CancelProvide, Stb::Abort];
pub const SIDES: [Side; 2] = [Bid, Ask];

fn finish(name: &str, d: Dex, prefix: &[Op], alpha: Vec<Op>) -> Result<Scn, String> {
    let mut init = d.w.st.clone();
    run_prefix(&d, &mut init, prefix)?;
    Ok(Scn { name: name.to_string(), dex: d, init, alpha })
}

/// plain two-sided trading alphabet for the users
fn trade_alpha(c: &Cfg, users: &[usize], prices: &[u64], qtys: &[u64]) -> Vec<Op> {
    let mut v = vec![];
    for &u in users {
        for &p in prices {
            for &q in qtys {
                v.push(Op::New(u, lim(c, Ask, p, q)));
                v.push(Op::New(u, lim(c, Bid, p, q)));
            }
        }
    }
    v
}
fn admin_alpha(users: &[usize]) -> Vec<Op> {
    let mut v = vec![];
    for &u in users {
        v.push(Op::CancelNth(u, Bid, 0));
        v.push(Op::CancelNth(u, Ask, 0));
        v.push(Op::SettleRef(u));
    }
    v.push(Op::Settle(users[0]));
    v.push(Op::Consume(1, ALL));
    v.push(Op::Consume(L, ALL));
    v.push(Op::Sweep);
    v
}

fn poke(d: &mut Dex, acc: Idx, off: usize, v: u64) {
    let w = d.w.clone();
    let b = w.data_mut(&mut d.w.st, acc);
    b[off..off + 8].copy_from_slice(&v.to_le_bytes());
}

/// Every scenario name with its quick and thorough depth is listed in props.rs.
pub fn scenario(name: &str, thorough: bool) -> Result<Scn, String> {
    let (base, arg) = match name.find(':') {
        Some(i) => (&name[..i], &name[i + 1..]),
        None => (name, ""),
    };
    match base {
        "auth" => crate::auth::scenario(arg, thorough, false),
        "auth2" => crate::auth::scenario(arg, thorough, true),
        // two traders, two prices, two sizes, every interleaving with cancels, cranks, settles
        "core" => {
            let c = Cfg::default();
            let d = build(&c);
            let mut a = trade_alpha(&c, &[0, 1], &[7, 8], &[1, 3]);
            a.extend(admin_alpha(&[0, 1]));
            finish(name, d, &[], a)
        }
        // smaller alphabet, deeper
        "deep" => {
            let c = Cfg::default();
            let d = build(&c);
            let a = vec![
                Op::New(0, lim(&c, Ask, 7, 2)),
                Op::New(1, lim(&c, Bid, 7, 1)),
                Op::New(1, lim(&c, Bid, 8, 3)),
                Op::New(0, lim(&c, Bid, 6, 2)),
                Op::New(1, lim(&c, Ask, 6, 1)),
                Op::CancelNth(0, Ask, 0),
                Op::CancelNth(1, Bid, 0),
                Op::Consume(1, ALL),
                Op::Consume(L, ALL),
                Op::SettleRef(0),
                Op::Settle(1),
                Op::Sweep,
            ];
            finish(name, d, &[], a)
        }
        // same alphabet in differently shaped worlds
        "shape" => {
            let mut c = Cfg::default();
            let mut seq = 0u64;
            let mut ring = 0usize;
            let mut slots = 0u64;
            let (mut ps, mut qs) = ([7u64, 8], [1u64, 3]);
            match arg {
                "unit" => {
                    c.coin_lot = 1;
                    c.pc_lot = 1;
                    c.dust = 0;
                    c.coin = 100_000;
                    qs = [1000, 2501];
                }
                "coinlot" => {
                    c.coin_lot = 1_000_000_000;
                    c.pc_lot = 3;
                    c.dust = 1_000_000;
                    c.coin = 90_000_000_000_000;
                    qs = [1, 4000];
                    c.pc = 1 << 40;
                }
                // what the market was listed with besides its lots
                "bps" => {
                    c.fee_bps = 37;
                    c.dust = 20_000;
                }
                "pclot" => {
                    c.coin_lot = 3;
                    c.pc_lot = 1_000_000_007;
                    c.pc = 1 << 45;
                }
                "price" => {
                    c.pc_lot = 1;
                    c.coin_lot = 10;
                    ps = [(1 << 33) + 5, (1 << 33) + 6];
                    c.pc = 1 << 45;
                }
                "pricegap" => {
                    c.pc_lot = 1;
                    c.coin_lot = 10;
                    ps = [1, 1 << 40];
                    c.pc = 1 << 46;
                }
                // prices that use the upper bytes of a word
                "price50" => {
                    c.pc_lot = 1;
                    c.coin_lot = 10;
                    ps = [(1 << 49) + 3, (1 << 50) + 3];
                    c.pc = 1 << 53;
                }
                "price57" => {
                    c.pc_lot = 1;
                    c.coin_lot = 10;
                    ps = [3, (1 << 57) + 3];
                    qs = [1, 2];
                    c.pc = 1 << 61;
                }
                "price62" => {
                    c.pc_lot = 1;
                    c.coin_lot = 10;
                    ps = [(1 << 56) + 1, (1 << 62) + 1];
                    qs = [1, 1];
                    c.pc = (1 << 62) + (1 << 60);
                }
                "price63" => {
                    c.pc_lot = 1;
                    c.coin_lot = 10;
                    ps = [3, (1 << 63) + 5];
                    qs = [1, 1];
                    c.pc = 1 << 62;
                }
                "qty" => {
                    c.pc_lot = 1;
                    c.coin_lot = 1;
                    c.coin = 1 << 50;
                    c.pc = 1 << 50;
                    ps = [1, 2];
                    qs = [(1 << 33) + 1, (1 << 34) + 7];
                }
                // orders whose sequence numbers straddle a power of two
                "seq8" => seq = (1 << 8) - 1,
                "seq16" => seq = (1 << 16) - 1,
                "seq24" => seq = (1 << 24) - 1,
                "seq32" => seq = (1 << 32) - 1,
                "seq48" => seq = (1 << 48) - 1,
                "seq62" => seq = (1 << 62) - 1,
                // accounts whose addresses agree in all but one word
                "twin0" => c.twin = Some(0),
                "twin3" => c.twin = Some(3),
                "twinz" => c.twin = Some(4),
                "ring" => ring = 126,
                "ring2" => ring = 121,
                "slots7" => slots = 7,
                "slots31" => slots = 31,
                "slots62" => slots = 62,
                "slots126" => slots = 125,
                // slots beyond the first 64 that held a bid before
                "reuse" => slots = 66,
                _ => return Err(format!("unknown shape {}", arg)),
            }
            let mut d = build(&c);
            if seq != 0 {
                let rq = d.m.req_q;
                poke(&mut d, rq, 5 + 24, seq);
            }
            if arg == "price63" {
                // the first trader holds more than half of all there can be (the others cannot buy
                // it all back before a fourth step, where a total would no longer fit a word)
                let t = d.users[0].pc;
                poke(&mut d, t, 64, (1 << 63) + (1 << 60));
            }
            let mut pre = vec![];
            // slot positions: many live orders far away from the touch
            for i in 0..slots {
                pre.push(Op::New(0, cid(ord(Bid, 1 + i % 3, 1, c.pc_lot * 3), 1000 + i)));
                if i % 20 == 19 {
                    pre.push(Op::Consume(L, ALL));
                }
            }
            if slots > 0 {
                pre.push(Op::Consume(L, ALL));
            }
            if arg == "reuse" {
                pre.push(Op::CancelCid(0, 1064));
                pre.push(Op::CancelCid(0, 1065));
                pre.push(Op::Consume(L, ALL));
            }
            // ring position of the event queue: each resting bid emits one event, its cancellation one
            let mut pushed = slots as usize;
            while pushed + 2 <= ring {
                pre.push(Op::New(1, ord(Bid, ps[0], 1, c.pc_lot * ps[0])));
                pre.push(Op::CancelNth(1, Bid, 0));
                pre.push(Op::Consume(L, ALL));
                pushed += 2;
            }
            let mut a = trade_alpha(&c, &[0, 1], &ps, &qs);
            a.extend(admin_alpha(&[0, 1]));
            if c.twin.is_some() {
                a.push(Op::Take(0, Take { side: Bid, price: 8, qty: 2, pc: 400_000, min_coin: 0, min_pc: 0, limit: L }));
                a.push(Op::Take(0, Take { side: Ask, price: 7, qty: 2, pc: u64::MAX, min_coin: 0, min_pc: 0, limit: L }));
                a.push(Op::Consume(L, 1));
                a.push(Op::Consume(L, 2));
            }
            if slots > 0 {
                // order ids in high slots, addressed by client id
                a.push(Op::New(0, cid(lim(&c, Ask, ps[1], 1), 77)));
                a.push(Op::CancelCid(0, 77));
                a.push(Op::CancelCid(0, 1000 + slots - 1));
                a.push(Op::CancelCids(0, vec![1000, 77, 1000 + slots - 2]));
            }
            finish(name, d, &pre, a)
        }
        // order types, match limits, expiry
        "types" => {
            let c = Cfg::default();
            let d = build(&c);
            let mut a = vec![];
            for &s in &SIDES {
                a.push(Op::New(0, lim(&c, s, 7, 1)));
                a.push(Op::New(0, lim(&c, s, if s == Bid { 6 } else { 8 }, 2)));
                for &t in &TYS {
                    for &l in &[0u16, 1, 2] {
                        a.push(Op::New(1, mlim(ty(lim(&c, s, 7, 3), t), l)));
                    }
                    a.push(Op::New(1, ty(lim(&c, s, if s == Bid { 8 } else { 6 }, 3), t)));
                }
                a.push(Op::New(1, ts(lim(&c, s, 7, 1), 999)));
                a.push(Op::New(1, ts(lim(&c, s, 7, 1), 1000)));
                a.push(Op::New(1, ts(lim(&c, s, 7, 2), 1005)));
            }
            a.push(Op::Clock(1006));
            a.push(Op::Consume(L, ALL));
            finish(name, d, &[], a)
        }
        // self trade behaviours
        "stp" => {
            let c = Cfg::default();
            let d = build(&c);
            let mut a = vec![];
            for &s in &SIDES {
                for &b in &STBS {
                    a.push(Op::New(0, stb(lim(&c, s, 7, 1), b)));
                    a.push(Op::New(0, stb(lim(&c, s, 7, 3), b)));
                    a.push(Op::New(0, ty(stb(lim(&c, s, if s == Bid { 8 } else { 6 }, 2), b), Ty::Ioc)));
                }
                a.push(Op::New(0, lim(&c, s, if s == Bid { 6 } else { 8 }, 2)));
                a.push(Op::New(1, lim(&c, s, 7, 2)));
            }
            a.push(Op::Consume(L, ALL));
            a.push(Op::Consume(1, ALL));
            a.push(Op::SettleRef(0));
            finish(name, d, &[], a)
        }
        // taker parameters against a fixed multi-level book: every price, size, budget, limit, type
        "ladder" => {
            let c = Cfg { users: 3, ..Cfg::default() };
            let d = build(&c);
            let me = if arg.contains("self") { 2 } else { 1 };
            let pre = vec![
                Op::New(0, lim(&c, Ask, 10, 2)),
                Op::New(me, lim(&c, Ask, 10, 1)),
                Op::New(1, lim(&c, Ask, 11, 3)),
                Op::New(0, lim(&c, Ask, 13, 2)),
                Op::New(1, lim(&c, Bid, 9, 1)),
                Op::New(me, lim(&c, Bid, 9, 2)),
                Op::New(0, lim(&c, Bid, 8, 3)),
                Op::New(1, lim(&c, Bid, 6, 2)),
                Op::Consume(L, ALL),
            ];
            let mut a = vec![];
            let prices: &[u64] = if thorough { &[1, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 1000] } else { &[6, 8, 9, 10, 11, 13, 1000] };
            let limits: &[u16] = if thorough { &[0, 1, 2, 3, 4, 5, L] } else { &[0, 1, 2, 3, L] };
            let qmax = if thorough { 9 } else { 8 };
            for &p in prices {
                for q in 1..=qmax {
                    for &l in limits {
                        for &t in &TYS {
                            for &b in &STBS {
                                if me == 1 && b != Stb::Dec {
                                    continue;
                                }
                                a.push(Op::New(2, mlim(stb(ty(lim(&c, Ask, p, q), t), b), l)));
                                a.push(Op::New(2, mlim(stb(ty(lim(&c, Bid, p.min(20), q), t), b), l)));
                                // budgets around every fill boundary
                                if b == Stb::Dec || thorough {
                                    for k in &[1u64, 10, 20, 21, 31, 42, 53, 63] {
                                        for dl in &[-1i64, 0, 1] {
                                            let n = k * c.pc_lot;
                                            let pc = (n as i64 + taker_fee(0, n as u128) as i64 + dl) as u64;
                                            if l == L || thorough {
                                                let mut o = mlim(stb(ty(ord(Bid, p, q, pc), t), b), l);
                                                o.cid = 5;
                                                a.push(Op::New(2, o));
                                            }
                                        }
                                    }
                                }
                            }
                        }
                    }
                }
            }
            if arg.contains("then") {
                // fewer takers, but everything that can follow
                a = a.into_iter().step_by(if thorough { 29 } else { 97 }).collect();
                a.push(Op::Consume(L, ALL));
                a.push(Op::Consume(3, ALL));
                a.push(Op::SettleRef(2));
                a.push(Op::CancelNth(2, Bid, 0));
                a.push(Op::CancelNth(2, Ask, 0));
                a.push(Op::SettleRef(0));
            }
            finish(name, d, &pre, a)
        }
        // send-take parameters against a fixed book
        "takegrid" => {
            let c = Cfg { users: 3, ..Cfg::default() };
            let d = build(&c);
            let pre = vec![
                Op::New(0, lim(&c, Ask, 10, 2)),
                Op::New(1, lim(&c, Ask, 10, 1)),
                Op::New(1, lim(&c, Ask, 11, 3)),
                Op::New(1, lim(&c, Bid, 9, 1)),
                Op::New(0, lim(&c, Bid, 9, 2)),
                Op::New(0, lim(&c, Bid, 8, 3)),
                Op::Consume(L, ALL),
            ];
            let mut a = vec![];
            for &p in &[1u64, 8, 9, 10, 11, 100] {
                for q in 1..=7u64 {
                    for &l in &[0u16, 1, 2, L] {
                        for &mn in &[0u64, 1, 2, 3, 6, 7] {
                            let mut pcs = vec![u64::MAX / 2, 400_000];
                            for k in &[10u64, 20, 30, 41, 63] {
                                let n = k * c.pc_lot;
                                for dl in &[-1i64, 0, 1] {
                                    pcs.push((n as i64 + taker_fee(0, n as u128) as i64 + dl) as u64);
                                }
                            }
                            for pc in pcs {
                                if p >= 8 {
                                    a.push(Op::Take(2, Take { side: Bid, price: p, qty: q, pc, min_coin: mn, min_pc: 0, limit: l }));
                                }
                            }
                            a.push(Op::Take(2, Take { side: Bid, price: p, qty: q, pc: 300_000, min_coin: mn, min_pc: 1_000_000, limit: l }));
                        }
                        for k in &[0u64, 9, 17, 18, 27, 35, 43, 51] {
                            let n = k * c.pc_lot;
                            let net = n - if n > 0 { taker_fee(0, n as u128) as u64 } else { 0 };
                            for dl in &[-2i64, -1, 0, 1, 2] {
                                if net as i64 + dl < 0 {
                                    continue;
                                }
                                a.push(Op::Take(
                                    2,
                                    Take { side: Ask, price: p.min(20), qty: q, pc: 1, min_coin: 0, min_pc: (net as i64 + dl) as u64, limit: l },
                                ));
                            }
                        }
                        a.push(Op::Take(2, Take { side: Ask, price: p.min(20), qty: q, pc: u64::MAX, min_coin: 1000, min_pc: 0, limit: l }));
                    }
                }
            }
            // numbers whose lower halves alone would be harmless
            const H: u64 = 1 << 32;
            for &l in &[1u16, L] {
                for &q in &[1u64, 3, H + 1, H + 3, u64::MAX] {
                    for &mn in &[0u64, 1, H, H + 1, u64::MAX] {
                        for &pc in &[400_000u64, H + 5_000, H + 400_000, u64::MAX] {
                            for &p in &[11u64, H + 9, H + 11, u64::MAX] {
                                a.push(Op::Take(2, Take { side: Bid, price: p, qty: q, pc, min_coin: mn, min_pc: 0, limit: l }));
                                a.push(Op::Take(2, Take { side: Bid, price: p, qty: q, pc, min_coin: 0, min_pc: mn, limit: l }));
                            }
                        }
                        for &p in &[1u64, 8, H + 1, H + 8] {
                            a.push(Op::Take(2, Take { side: Ask, price: p, qty: q, pc: 1, min_coin: 0, min_pc: mn, limit: l }));
                            a.push(Op::Take(2, Take { side: Ask, price: p, qty: q, pc: 1, min_coin: mn, min_pc: 0, limit: l }));
                        }
                    }
                }
            }
            finish(name, d, &pre, a)
        }
        // send-takes interleaved with everything else, including a taker that also has resting orders
        // (with unit lots: sales whose whole proceeds are eaten by the fee)
        "take" if arg == "unit" => {
            let c = Cfg { coin_lot: 1, pc_lot: 1, ..Cfg::default() };
            let d = build(&c);
            let mut a = trade_alpha(&c, &[0], &[1, 2], &[1, 3]);
            for &l in &[1u16, L] {
                for &(p, q) in &[(1u64, 1u64), (1, 3), (2, 2)] {
                    for &mn in &[0u64, 1] {
                        a.push(Op::Take(1, Take { side: Ask, price: p, qty: q, pc: 1, min_coin: 0, min_pc: mn, limit: l }));
                        a.push(Op::Take(1, Take { side: Bid, price: p, qty: q, pc: p * q + mn, min_coin: mn, min_pc: 0, limit: l }));
                    }
                }
            }
            a.push(Op::Consume(L, ALL));
            a.push(Op::SettleRef(0));
            a.push(Op::Sweep);
            finish(name, d, &[], a)
        }
        "take" => {
            let c = Cfg::default();
            let d = build(&c);
            let mut a = trade_alpha(&c, &[0], &[7, 8], &[1, 3]);
            a.push(Op::New(1, lim(&c, Bid, 7, 2)));
            a.push(Op::New(1, lim(&c, Ask, 8, 2)));
            for &l in &[1u16, L] {
                a.push(Op::Take(1, Take { side: Bid, price: 8, qty: 2, pc: 100_000, min_coin: 1, min_pc: 0, limit: l }));
                a.push(Op::Take(1, Take { side: Ask, price: 7, qty: 2, pc: 1, min_coin: 0, min_pc: 1, limit: l }));
            }
            a.push(Op::Take(1, Take { side: Bid, price: 8, qty: 4, pc: 8 * 4 * 1009, min_coin: 0, min_pc: 0, limit: L }));
            a.push(Op::Take(1, Take { side: Bid, price: 7, qty: 1, pc: 7 * 1009 + 3, min_coin: 1, min_pc: 0, limit: L }));
            a.push(Op::Take(1, Take { side: Ask, price: 8, qty: 3, pc: 1, min_coin: 0, min_pc: 0, limit: L }));
            a.push(Op::Take(0, Take { side: Ask, price: 7, qty: 5, pc: 1, min_coin: 0, min_pc: 5 * 7 * 1009 - 15, limit: L }));
            a.push(Op::Take(0, Take { side: Bid, price: 9, qty: 5, pc: 60_000, min_coin: 4, min_pc: 0, limit: L }));
            a.push(Op::Consume(L, ALL));
            a.push(Op::SettleRef(0));
            a.push(Op::Sweep);
            finish(name, d, &[], a)
        }
        // fee tiers
        "tiers" => {
            let one = 1_000_000u64;
            let mut bal = vec![(1u8, 0u64)];
            for k in &[100u64, 1_000, 10_000, 100_000, 1_000_000] {
                for dl in &[-1i64, 0, 1] {
                    bal.push((1, (*k * one) as i64 as u64));
                    let n = bal.len() - 1;
                    bal[n].1 = (bal[n].1 as i64 + dl) as u64;
                }
            }
            bal.push((1, u64::MAX));
            bal.push((2, 0));
            bal.push((2, 1));
            bal.push((2, 2));
            bal.push((2, u64::MAX / 2));
            bal.push((0, u64::MAX / 2));
            bal.push((0, 0));
            let n = bal.len();
            let mut c = Cfg { users: n, srm: bal, coin_lot: 1, pc_lot: 1, coin: 50_000_000, pc: 50_000_000, dust: 0, ..Cfg::default() };
            if arg.starts_with("stable") {
                c.stable = true;
            }
            let d = build(&c);
            let pre = vec![
                Op::New(0, lim(&c, Ask, 3, 3_000_000)),
                Op::New(0, lim(&c, Bid, 2, 3_000_000)),
                Op::Consume(L, ALL),
            ];
            let mut a = vec![];
            for u in 1..n {
                for &q in &[1u64, 833, 834, 33_334, 1_000_003] {
                    a.push(Op::NewSrm(u, lim(&c, Bid, 3, q), u));
                    a.push(Op::NewSrm(u, lim(&c, Ask, 2, q), u));
                    a.push(Op::TakeSrm(u, Take { side: Bid, price: 3, qty: q, pc: 40_000_000, min_coin: 0, min_pc: 0, limit: L }, u));
                    a.push(Op::TakeSrm(u, Take { side: Ask, price: 2, qty: q, pc: 1, min_coin: 0, min_pc: 0, limit: L }, u));
                }
                a.push(Op::NewSrm(u, lim(&c, Bid, 1, 7), u));
                // somebody else's discount account
                a.push(Op::NewSrm(u, lim(&c, Bid, 3, 1000), (u % (n - 1)) + 1));
                a.push(Op::TakeSrm(u, Take { side: Bid, price: 3, qty: 7, pc: 40_000_000, min_coin: 0, min_pc: 0, limit: L }, (u % (n - 1)) + 1));
                a.push(Op::SettleRef(u));
            }
            a.push(Op::New(1, lim(&c, Bid, 3, 100_000)));
            a.push(Op::Consume(L, ALL));
            a.push(Op::Sweep);
            finish(name, d, &pre, a)
        }
        // every trade size around the fee rounding steps, every tier
        "feegrid" => {
            let one = 1_000_000u64;
            let bal = vec![(1u8, 0u64), (1, 100 * one), (1, 1_000 * one), (1, 10_000 * one), (1, 100_000 * one), (1, 1_000_000 * one), (2, 1)];
            let n = bal.len();
            let mut c = Cfg { users: n + 1, coin_lot: 1, pc_lot: 1, coin: 50_000_000, pc: 50_000_000, dust: 0, ..Cfg::default() };
            c.srm = vec![(0, 0)];
            c.srm.extend(bal);
            c.stable = arg == "stable";
            let big = arg.starts_with("big");
            let cap = if big { 1u64 << 50 } else { 3_000_000 };
            let ample = cap + cap / 3;
            if big {
                c.coin = 1 << 52;
                c.pc = 1 << 52;
            }
            let d = build(&c);
            let pre = vec![
                Op::New(0, lim(&c, Ask, 1, cap)),
                Op::Consume(L, ALL),
            ];
            let pre2 = vec![
                Op::New(0, ord(Bid, 1, cap, cap)),
                Op::Consume(L, ALL),
            ];
            let bidside = arg.ends_with("bid");
            let mut a = vec![];
            let mut qs: Vec<u64> = (1..if thorough { 40_000 } else { 6_000 }).collect();
            for k in 1..200u64 {
                qs.push(k * 12_500);
                qs.push(k * 12_500 + 1);
                qs.push(k * 2_500 + 100_000);
                qs.push(k * 2_500 + 100_001);
                qs.push(k * 2_564 + 100_001);
            }
            if big {
                // amounts around powers of two: every residue of the fee's denominator (reduced)
                qs = vec![];
                for b in &[16u32, 24, 31, 32, 33, 40, 48] {
                    for i in 0..if thorough { 2_600u64 } else { 520 } {
                        qs.push((1u64 << b) - 10 + i * if thorough { 1 } else { 5 });
                    }
                }
            }
            for u in 1..=n {
                if c.stable && u > 1 {
                    break;
                }
                for &q in &qs {
                    if q > cap {
                        continue;
                    }
                    if bidside {
                        a.push(Op::NewSrm(u, ord(Ask, 1, q, 1), u));
                        if q % 16 == 0 {
                            a.push(Op::TakeSrm(u, Take { side: Ask, price: 1, qty: q, pc: 1, min_coin: 0, min_pc: 0, limit: L }, u));
                        }
                    } else {
                        // size bound, then budget bound
                        a.push(Op::NewSrm(u, ord(Bid, 1, q, ample), u));
                        a.push(Op::NewSrm(u, ord(Bid, 1, ample, q), u));
                        if q % 16 == 0 {
                            a.push(Op::TakeSrm(u, Take { side: Bid, price: 1, qty: ample, pc: q, min_coin: 0, min_pc: 0, limit: L }, u));
                        }
                    }
                }
            }
            finish(name, d, if bidside { &pre2 } else { &pre }, a)
        }
        // fees over histories: referrers, sweeps, settles
        "fees" => {
            let c = Cfg { users: 3, srm: vec![(1, 0), (2, 1), (1, 100_000_000_000)], coin: 20_000, pc: 4_000_000, ..Cfg::default() };
            let d = build(&c);
            let mut a = vec![
                Op::New(0, lim(&c, Ask, 20, 5)),
                Op::New(0, lim(&c, Bid, 20, 5)),
                Op::NewSrm(1, lim(&c, Bid, 21, 3), 1),
                Op::NewSrm(1, lim(&c, Ask, 19, 4), 1),
                Op::NewSrm(2, lim(&c, Bid, 20, 7), 2),
                Op::NewSrm(2, lim(&c, Ask, 20, 6), 2),
                Op::TakeSrm(1, Take { side: Bid, price: 21, qty: 3, pc: 500_000, min_coin: 0, min_pc: 0, limit: L }, 1),
                Op::Take(1, Take { side: Ask, price: 19, qty: 3, pc: 1, min_coin: 0, min_pc: 0, limit: L }),
                Op::Consume(L, ALL),
                Op::Consume(2, ALL),
                Op::Sweep,
                Op::Disable,
            ];
            for u in 0..3 {
                a.push(Op::Settle(u));
                a.push(Op::SettleRef(u));
            }
            finish(name, d, &[], a)
        }
        // client ids, cancels and replaces
        "cids" => {
            let c = Cfg::default();
            let d = build(&c);
            let o = |s, p, q, id| cid(lim(&c, s, p, q), id);
            let mut a = vec![
                Op::New(0, o(Bid, 6, 2, 1)),
                Op::New(0, o(Ask, 8, 1, 1)),
                Op::New(0, o(Ask, 8, 2, 2)),
                Op::New(0, o(Bid, 7, 1, 0)),
                Op::New(1, o(Bid, 8, 1, 1)),
                Op::New(1, o(Ask, 6, 3, 2)),
                Op::CancelCid(0, 1),
                Op::CancelCid(0, 2),
                Op::CancelCid(0, 0),
                Op::CancelCid(0, 3),
                Op::CancelCids(0, vec![1]),
                Op::CancelCids(0, vec![2, 1]),
                Op::CancelCids(0, vec![0, 3, 1, 1]),
                Op::CancelCids(0, vec![9, 8, 7, 6, 5, 4, 2, 1]),
                Op::CancelCids(1, vec![2]),
                Op::Replace(0, o(Bid, 7, 1, 1)),
                Op::Replace(0, o(Ask, 7, 2, 2)),
                Op::Replace(0, ty(o(Ask, 6, 2, 1), Ty::Ioc)),
                Op::Replace(0, ts(o(Bid, 7, 1, 1), 999)),
                Op::Replace(0, o(Bid, 7, 1, 0)),
                Op::Replaces(0, vec![o(Bid, 6, 1, 1), o(Bid, 5, 2, 2)]),
                Op::Replaces(0, vec![o(Ask, 8, 1, 3), o(Ask, 9, 1, 1)]),
                Op::CancelNth(0, Bid, 0),
                Op::CancelNth(0, Ask, 1),
                Op::CancelForeign(1, 0, Bid, 0),
                Op::CancelWrongSide(0, Bid, 0),
                Op::Consume(L, ALL),
                Op::Consume(1, ALL),
            ];
            if arg == "neg" {
                a = a.into_iter().filter(|o| !matches!(o, Op::Consume(1, _))).collect();
                a.push(Op::Settle(0));
            }
            finish(name, d, &[], a)
        }
        // client ids that differ in one part of their bytes only
        "widecids" => {
            let c = Cfg::default();
            let d = build(&c);
            let o = |s, p, q, id| cid(lim(&c, s, p, q), id);
            let ids = [1u64, 1 | 1 << 8, 1 | 1 << 16, 1 | 1 << 31, 1 | 1 << 32, 1 | 1 << 48, 1 | 1 << 63, u64::MAX, 1 << 32];
            let mut a = vec![];
            for (i, &id) in ids.iter().enumerate() {
                a.push(Op::New(0, o(if i % 2 == 0 { Bid } else { Ask }, if i % 2 == 0 { 6 } else { 8 }, 1 + i as u64 % 3, id)));
                a.push(Op::CancelCid(0, id));
                a.push(Op::CancelCids(0, vec![id]));
                a.push(Op::Replace(0, o(Bid, 5, 2, id)));
            }
            a.push(Op::CancelCids(0, vec![1, 2, 3]));
            a.push(Op::CancelCids(0, vec![u64::MAX, 1 << 32]));
            a.push(Op::CancelCids(1, ids[..8].to_vec()));
            a.push(Op::Replaces(0, vec![o(Bid, 5, 1, 1 | 1 << 32), o(Ask, 9, 1, 1 | 1 << 8)]));
            a.push(Op::Consume(L, ALL));
            finish(name, d, &[], a)
        }
        // replace in depth
        "replace" => {
            let c = Cfg { pc: 60_000, coin: 600, ..Cfg::default() };
            let d = build(&c);
            let o = |s, p, q, id| cid(lim(&c, s, p, q), id);
            let mut a = vec![
                Op::New(0, o(Bid, 6, 2, 1)),
                Op::New(0, o(Bid, 5, 3, 2)),
                Op::New(1, o(Bid, 7, 1, 1)),
                Op::New(1, o(Ask, 7, 2, 2)),
            ];
            for &id in &[1u64, 2, 3] {
                for &(s, p, q) in &[(Bid, 6u64, 4u64), (Bid, 7, 2), (Ask, 8, 3)] {
                    a.push(Op::Replace(0, o(s, p, q, id)));
                }
            }
            a.push(Op::Replace(0, ty(o(Bid, 7, 4, 1), Ty::Post)));
            a.push(Op::Replace(0, mlim(o(Bid, 7, 4, 1), 0)));
            a.push(Op::Replace(0, ts(o(Bid, 6, 1, 1), 999)));
            a.push(Op::Replace(0, o(Bid, 8, 9, 2))); // more than the wallet holds
            a.push(Op::Replaces(0, vec![]));
            a.push(Op::Replaces(0, vec![o(Bid, 6, 1, 1)]));
            a.push(Op::Replaces(0, vec![o(Bid, 6, 1, 2), o(Bid, 7, 1, 1), o(Bid, 4, 1, 5)]));
            a.push(Op::Replaces(0, vec![o(Bid, 6, 1, 1), o(Bid, 6, 1, 1)]));
            a.push(Op::Replaces(0, vec![o(Ask, 7, 1, 1), o(Ask, 8, 1, 2)]));
            a.push(Op::Replaces(0, vec![o(Bid, 6, 1, 0), o(Bid, 5, 1, 0), o(Bid, 6, 1, 2)]));
            a.push(Op::Replaces(0, vec![o(Bid, 6, 1, 1), o(Ask, 8, 1, 2)])); // second order pays the other token
            a.push(Op::Replaces(0, vec![o(Bid, 7, 1, 1), stb(o(Bid, 8, 1, 2), Stb::Abort)]));
            a.push(Op::Consume(L, ALL));
            a.push(Op::CancelCids(0, vec![1, 2]));
            a.push(Op::Settle(0));
            finish(name, d, &[], a)
        }
        // expiry timestamps around the clock, for single orders and batches
        "expiry" => {
            let c = Cfg::default();
            let d = build(&c);
            let o = |s, p, q, id| cid(lim(&c, s, p, q), id);
            let mut a = vec![Op::New(0, o(Bid, 6, 2, 1)), Op::New(0, o(Ask, 8, 2, 2))];
            let far = arg == "far";
            let b = 1i64 << 32;
            let tss: Vec<i64> = if far {
                vec![1, 3, 5, b >> 1, (b >> 1) + 6, b - 1, b, b + 4, b + 5, b + 6, 2 * b, 3 * b + 1, i64::MAX - 1]
            } else {
                vec![i64::MIN, -1, 0, 999, 1000, 1001, 1005, i64::MAX]
            };
            for t in tss {
                a.push(Op::New(1, ts(o(Bid, 8, 1, 3), t)));
                a.push(Op::New(1, ty(ts(o(Ask, 6, 1, 4), t), Ty::Ioc)));
                a.push(Op::Replace(0, ts(o(Bid, 7, 1, 1), t)));
                a.push(Op::Replaces(0, vec![ts(o(Ask, 9, 1, 2), t), o(Ask, 10, 1, 6)]));
                a.push(Op::Replaces(0, vec![o(Ask, 10, 1, 6), ts(o(Ask, 9, 1, 2), t)]));
            }
            if far {
                for &t in &[3, (b >> 1) + 5, b + 5, 3 * b, i64::MAX] {
                    a.push(Op::Clock(t));
                }
            } else {
                a.push(Op::Clock(0));
                a.push(Op::Clock(1001));
                a.push(Op::Clock(1006));
            }
            a.push(Op::Consume(L, ALL));
            finish(name, d, &[], a)
        }
        // expiry for every kind of order
        "expirytypes" => {
            let c = Cfg::default();
            let d = build(&c);
            let o = |s, p, q, id| cid(lim(&c, s, p, q), id);
            let pre = vec![Op::New(0, o(Bid, 6, 2, 1)), Op::New(0, o(Ask, 8, 2, 2)), Op::New(1, o(Bid, 5, 1, 1)), Op::Consume(L, ALL)];
            let mut a = vec![];
            for &t in &[-1i64, 0, 999, 1000, 1001, i64::MAX - 1, i64::MAX] {
                for &x in &TYS {
                    for &b in &STBS {
                        for &id in &[0u64, 1, 7] {
                            for &(s, p) in &[(Bid, 7u64), (Bid, 9), (Ask, 7), (Ask, 5)] {
                                let n = stb(ty(ts(o(s, p, 1, id), t), x), b);
                                a.push(Op::New(1, n));
                                a.push(Op::Replace(1, n));
                                a.push(Op::Replaces(1, vec![o(s, p, 2, 3), n]));
                            }
                        }
                    }
                }
            }
            finish(name, d, &pre, a)
        }
        // batches of every size, every id in every place
        "replmany" => {
            let c = Cfg { coin: 4_000, pc: 900_000, ..Cfg::default() };
            let d = build(&c);
            let o = |s, p, q, id| cid(lim(&c, s, p, q), id);
            let mut pre = vec![];
            for i in 1..=9u64 {
                pre.push(Op::New(0, o(Bid, 3 + (i * 5) % 9, 1 + i % 2, i)));
            }
            pre.push(Op::New(0, o(Ask, 20, 1, 10)));
            pre.push(Op::New(0, o(Bid, 4, 1, 0)));
            pre.push(Op::New(1, o(Ask, 15, 3, 5)));
            pre.push(Op::New(1, o(Ask, 18, 3, 6)));
            pre.push(Op::Consume(L, ALL));
            let mut a = vec![];
            for n in 1..=8u64 {
                for off in 0..9u64 {
                    let ids: Vec<u64> = (0..n).map(|i| (off + i) % 9 + 1).collect();
                    let back: Vec<u64> = ids.iter().rev().cloned().collect();
                    for v in vec![ids, back] {
                        let b: Vec<New> = v.iter().enumerate().map(|(i, &k)| o(Bid, if i as u64 + 1 == n { 16 } else { 2 + i as u64 }, 1, k)).collect();
                        a.push(Op::Replaces(0, b));
                        a.push(Op::CancelCids(0, v.clone()));
                        let mut z = v.clone();
                        if z.len() < 8 {
                            z.insert(z.len() / 2, 0);
                            a.push(Op::CancelCids(0, z));
                        }
                    }
                }
            }
            finish(name, d, &pre, a)
        }
        // every size of match, crank and prune limit against a long book
        "limits" => {
            let c = Cfg { users: 3, oo_auth: true, prune_auth: true, coin: 400_000, pc: 4_000_000, ..Cfg::default() };
            let d = build(&c);
            let mut pre = vec![Op::InitOoAuth(0), Op::InitOoAuth(1), Op::InitOoAuth(2)];
            for i in 0..40u64 {
                let u = if i % 8 == 5 { 2 } else { (i % 2) as usize };
                pre.push(Op::New(u, lim(&c, Bid, 30 - (i * 3) % 10, 1 + i % 2)));
                pre.push(Op::New(u, lim(&c, Ask, 40 + (i * 3) % 10, 1 + i % 3)));
            }
            pre.push(Op::Consume(L, ALL));
            let mut a = vec![];
            for &l in &[0u16, 1, 2, 3, 7, 15, 16, 31, 32, 33, 34, 39, 40, 41, 63, 64, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1023, 1024, 4096, 32767, 32768, 65534, L] {
                for &t in &TYS {
                    for &b in &STBS {
                        a.push(Op::New(2, mlim(stb(ty(lim(&c, Ask, 21, 200), t), b), l)));
                        a.push(Op::New(2, mlim(stb(ty(lim(&c, Bid, 49, 200), t), b), l)));
                    }
                }
                a.push(Op::New(1, mlim(lim(&c, Ask, 28, 9), l)));
                a.push(Op::Take(2, Take { side: Bid, price: 49, qty: 300, pc: 2_000_000, min_coin: 0, min_pc: 0, limit: l }));
                a.push(Op::Take(2, Take { side: Ask, price: 21, qty: 300, pc: 1, min_coin: 0, min_pc: 0, limit: l }));
                a.push(Op::Consume(l, ALL));
                for u in 0..3 {
                    a.push(Op::Prune(u, l));
                }
            }
            finish(name, d, &pre, a)
        }
        // replacing in every combination of sides, types, self-trade behaviours and batch shapes
        "replgrid" => {
            let c = Cfg { users: 3, pc: 60_000, coin: 800, ..Cfg::default() };
            let d = build(&c);
            let o = |s, p, q, id| cid(lim(&c, s, p, q), id);
            let pre = vec![
                Op::New(0, o(Bid, 6, 2, 1)),
                Op::New(0, o(Bid, 5, 3, 2)),
                Op::New(0, o(Ask, 9, 2, 3)),
                Op::New(0, o(Ask, 11, 1, 4)),
                Op::New(1, o(Ask, 8, 2, 1)),
                Op::New(1, o(Bid, 7, 1, 2)),
                Op::New(2, o(Ask, 9, 1, 9)),
                Op::Consume(L, ALL),
            ];
            let mut single = vec![];
            for &s in &SIDES {
                for &p in &[5u64, 6, 7, 8, 9, 10] {
                    for &q in &[1u64, 4] {
                        for &t in &TYS {
                            for &b in &STBS {
                                for &id in &[1u64, 2, 3, 4, 7, 0] {
                                    for &l in &[0u16, 1, L] {
                                        single.push(mlim(stb(ty(o(s, p, q, id), t), b), l));
                                    }
                                }
                            }
                        }
                    }
                }
            }
            let mut a: Vec<Op> = single.iter().map(|n| Op::Replace(0, n.clone())).collect();
            a.extend(single.iter().map(|n| Op::Replaces(0, vec![n.clone()])));
            let few: Vec<New> = vec![
                o(Bid, 6, 1, 1),
                o(Bid, 5, 3, 2),
                o(Bid, 8, 1, 5),
                ty(o(Bid, 8, 5, 1), Ty::Ioc),
                ty(o(Bid, 9, 1, 2), Ty::Post),
                o(Bid, 6, 5, 7),
                o(Bid, 5, 1, 0),
                stb(o(Bid, 9, 3, 3), Stb::Abort),
                stb(o(Bid, 9, 4, 3), Stb::CancelProvide),
                o(Ask, 9, 1, 3),
                o(Ask, 10, 2, 4),
                o(Ask, 7, 2, 3),
                ty(o(Ask, 6, 3, 8), Ty::Ioc),
                o(Ask, 12, 5, 1),
                ts(o(Bid, 4, 1, 1), 999),
            ];
            for x in &few {
                for y in &few {
                    a.push(Op::Replaces(0, vec![x.clone(), y.clone()]));
                    for z in &few {
                        a.push(Op::Replaces(0, vec![x.clone(), y.clone(), z.clone()]));
                    }
                }
            }
            for n in 4..=8usize {
                let b: Vec<New> = (0..n).map(|i| o(Bid, 1 + i as u64 % 3, 1, 1 + i as u64)).collect();
                a.push(Op::Replaces(0, b.clone()));
                for i in 0..n {
                    for x in &few {
                        let mut c2 = b.clone();
                        c2[i] = x.clone();
                        a.push(Op::Replaces(0, c2));
                    }
                }
            }
            if thorough {
                a = a.into_iter().step_by(5).collect();
            }
            finish(name, d, &pre, a)
        }
        // a market disabled in the middle of business
        "disabled" => {
            let c = Cfg { users: 3, ..Cfg::default() };
            let d = build(&c);
            let o = |s, p, q, id| cid(lim(&c, s, p, q), id);
            let mut pre = vec![
                Op::New(0, o(Ask, 7, 2, 1)),
                Op::New(1, o(Bid, 7, 1, 2)),
                Op::New(1, o(Bid, 5, 3, 3)),
                Op::New(0, o(Ask, 8, 1, 4)),
                Op::Consume(L, ALL),
                Op::New(2, o(Bid, 8, 2, 5)),
                Op::New(1, ty(o(Ask, 5, 1, 6), Ty::Ioc)),
            ];
            pre.push(Op::Disable);
            let mut a = vec![];
            for u in 0..3 {
                a.push(Op::New(u, o(Bid, 4, 1, 9)));
                a.push(Op::New(u, ty(o(Ask, 5, 1, 9), Ty::Ioc)));
                a.push(Op::Take(u, Take { side: Bid, price: 8, qty: 1, pc: 100_000, min_coin: 0, min_pc: 0, limit: L }));
                a.push(Op::Replace(u, o(Bid, 4, 1, 3)));
                a.push(Op::Replaces(u, vec![o(Bid, 4, 1, 3)]));
                a.push(Op::CancelNth(u, Bid, 0));
                a.push(Op::CancelNth(u, Ask, 0));
                a.push(Op::CancelCid(u, 3));
                a.push(Op::CancelCids(u, vec![4, 3, 5]));
                a.push(Op::Settle(u));
                a.push(Op::SettleRef(u));
                a.push(Op::Close(u));
                a.push(Op::InitOo(u));
                a.push(Op::Prune(u, L));
            }
            a.push(Op::Consume(1, ALL));
            a.push(Op::Consume(L, ALL));
            a.push(Op::Sweep);
            a.push(Op::Disable);
            finish(name, d, &pre, a)
        }
        // account life cycle: creation, closing, disabled market
        "life" => {
            let c = Cfg { coin: 300, pc: 30_000, ..Cfg::default() };
            let d = build(&c);
            let a = vec![
                Op::InitOo(0),
                Op::InitOo(1),
                Op::InitOoAuth(0),
                Op::New(0, lim(&c, Ask, 7, 1)),
                Op::New(1, lim(&c, Bid, 7, 1)),
                Op::New(1, ty(ord(Bid, 7, 1, 7 * 1009 + 3), Ty::Ioc)),
                Op::New(0, lim(&c, Bid, 6, 2)),
                Op::Take(1, Take { side: Ask, price: 6, qty: 1, pc: 1, min_coin: 0, min_pc: 0, limit: L }),
                Op::CancelNth(0, Ask, 0),
                Op::CancelNth(0, Bid, 0),
                Op::CancelNth(1, Bid, 0),
                Op::Consume(L, ALL),
                Op::Consume(1, ALL),
                Op::Settle(0),
                Op::SettleRef(1),
                Op::Close(0),
                Op::Close(1),
                Op::Disable,
                Op::Sweep,
            ];
            finish(name, d, &[], a)
        }
        // large trades so that a close may coincide with unsettled rebates
        "close" => {
            let c = Cfg { coin: 2_000, pc: 300_000, ..Cfg::default() };
            let d = build(&c);
            let a = vec![
                Op::New(0, lim(&c, Ask, 20, 10)),
                Op::New(0, lim(&c, Bid, 20, 10)),
                // spends its budget to the last unit: 10 lots at 20 plus fee
                Op::New(1, ty(ord(Bid, 20, 10, 201_800 + taker_fee(0, 201_800) as u64), Ty::Ioc)),
                Op::New(1, ty(ord(Ask, 20, 10, 1), Ty::Ioc)),
                Op::New(1, lim(&c, Bid, 15, 1)),
                Op::CancelNth(0, Ask, 0),
                Op::CancelNth(0, Bid, 0),
                Op::CancelNth(1, Bid, 0),
                Op::Consume(L, ALL),
                Op::Consume(1, ALL),
                Op::Settle(0),
                Op::Settle(1),
                Op::SettleRef(1),
                Op::Close(0),
                Op::Close(1),
                Op::CloseTo(0, 0),
                Op::CloseTo(0, 1),
                Op::CloseTo(0, 2),
                Op::CloseTo(0, 3),
                Op::CloseTo(0, 4),
                Op::CloseTo(0, 5),
                Op::CloseTo(1, 6),
                Op::InitOo(1),
                Op::Disable,
            ];
            finish(name, d, &[], a)
        }
        // permissioned market
        "perm" => {
            let mut c = Cfg { users: 2, oo_auth: true, ..Cfg::default() };
            c.prune_auth = arg != "oo";
            c.crank_auth = arg == "crank" || arg.starts_with("same");
            c.share = match arg {
                "same" => 3,
                "same2" => 2,
                _ => 0,
            };
            let d = build(&c);
            let mut a = vec![];
            for u in 0..2 {
                a.push(Op::InitOo(u));
                a.push(Op::InitOoAuth(u));
                a.push(Op::Prune(u, 1));
                a.push(Op::Prune(u, 2));
                a.push(Op::Prune(u, L));
                a.push(Op::CancelNth(u, Bid, 0));
                a.push(Op::Settle(u));
            }
            a.push(Op::New(0, lim(&c, Ask, 7, 2)));
            a.push(Op::New(0, lim(&c, Bid, 6, 2)));
            a.push(Op::New(1, lim(&c, Bid, 7, 1)));
            a.push(Op::New(1, lim(&c, Ask, 6, 3)));
            a.push(Op::Take(1, Take { side: Bid, price: 7, qty: 1, pc: 100_000, min_coin: 0, min_pc: 0, limit: L }));
            a.push(Op::Consume(L, ALL));
            a.push(Op::Consume(1, ALL));
            a.push(Op::ConsumePerm(L, ALL));
            a.push(Op::ConsumePerm(1, ALL));
            a.push(Op::Disable);
            a.push(Op::Sweep);
            a.push(Op::Close(0));
            finish(name, d, &[], a)
        }
        // pruning with many orders on the book
        "prune" => {
            let c = Cfg { users: 3, oo_auth: true, prune_auth: true, twin: Some(3), ..Cfg::default() };
            let d = build(&c);
            let mut pre = vec![Op::InitOoAuth(0), Op::InitOoAuth(1), Op::InitOoAuth(2)];
            for i in 0..4u64 {
                pre.push(Op::New(0, lim(&c, Bid, 5 + i % 2, 1 + i)));
                pre.push(Op::New(1, lim(&c, Bid, 6 - i % 3, 2)));
                pre.push(Op::New(0, lim(&c, Ask, 8 + i % 3, 1)));
                pre.push(Op::New(1, lim(&c, Ask, 9, 1 + i % 2)));
            }
            pre.push(Op::Consume(L, ALL));
            let mut a = vec![];
            for u in 0..3 {
                for &l in &[0u16, 1, 2, 3, 5, 8, 9, 14, 15, 16, 29, 30, L] {
                    a.push(Op::Prune(u, l));
                }
            }
            a.push(Op::CancelNth(0, Bid, 1));
            a.push(Op::New(2, lim(&c, Bid, 8, 2)));
            a.push(Op::New(2, lim(&c, Ask, 6, 3)));
            a.push(Op::Consume(L, ALL));
            a.push(Op::Settle(0));
            finish(name, d, &pre, a)
        }
        // book at and around its capacity
        "fullbook" => {
            let c = Cfg { users: 3, coin: 400_000, pc: 4_000_000, ..Cfg::default() };
            let d = build(&c);
            let bid = arg != "asks";
            let cap = (c.slab_nodes + 1) / 2;
            let mut pre = vec![];
            for i in 0..cap - 1 {
                let u = i % 2;
                let p = if bid { 10 + (i as u64 * 7) % 13 } else { 40 - (i as u64 * 7) % 13 };
                pre.push(Op::New(u, lim(&c, if bid { Bid } else { Ask }, p, 1 + i as u64 % 2)));
                if i % 40 == 39 {
                    pre.push(Op::Consume(L, ALL));
                }
            }
            pre.push(Op::Consume(L, ALL));
            let s = if bid { Bid } else { Ask };
            let ps: &[u64] = if bid { &[9, 10, 11, 16, 22, 23] } else { &[41, 40, 39, 33, 28, 27] };
            let mut a = vec![];
            for &p in ps {
                a.push(Op::New(2, lim(&c, s, p, 3)));
            }
            a.push(Op::New(0, lim(&c, s, ps[5], 1)));
            a.push(Op::New(2, lim(&c, if bid { Ask } else { Bid }, ps[4], 4)));
            a.push(Op::New(2, ty(lim(&c, s, ps[1], 3), Ty::Post)));
            a.push(Op::New(2, ty(lim(&c, s, ps[1], 3), Ty::Ioc)));
            a.push(Op::CancelNth(0, s, 0));
            a.push(Op::CancelNth(1, s, 20));
            a.push(Op::CancelNth(2, s, 0));
            a.push(Op::Consume(L, ALL));
            a.push(Op::Settle(0));
            a.push(Op::Settle(2));
            finish(name, d, &pre, a)
        }
        // pruning into a nearly full event queue
        "fullq" if arg.starts_with("prune") => {
            let c = Cfg { users: 3, oo_auth: true, prune_auth: true, coin: 400_000, pc: 4_000_000, ..Cfg::default() };
            let d = build(&c);
            let mut pre = vec![Op::InitOoAuth(0), Op::InitOoAuth(1), Op::InitOoAuth(2)];
            for i in 0..4u64 {
                pre.push(Op::New(0, lim(&c, Bid, 5 + i % 2, 1 + i)));
                pre.push(Op::New(1, lim(&c, Ask, 9, 1 + i % 2)));
                pre.push(Op::New(0, lim(&c, Ask, 8 + i % 3, 1)));
                pre.push(Op::New(1, lim(&c, Bid, 4, 2)));
            }
            pre.push(Op::Consume(L, ALL));
            let want = if arg == "prune2" { 127 } else { 123 };
            for _ in 0..want / 2 {
                pre.push(Op::New(2, lim(&c, Bid, 3, 1)));
                pre.push(Op::CancelNth(2, Bid, 0));
            }
            pre.push(Op::New(2, lim(&c, Bid, 2, 1)));
            let mut a = vec![];
            for u in 0..3 {
                for &l in &[1u16, 2, 3, 4, 5, 6, 8, L] {
                    a.push(Op::Prune(u, l));
                }
            }
            for &l in &[1u16, 2, 3, 5, L] {
                a.push(Op::Consume(l, ALL));
            }
            a.push(Op::CancelNth(0, Ask, 0));
            a.push(Op::CancelNth(1, Bid, 0));
            a.push(Op::New(2, lim(&c, Bid, 8, 2)));
            a.push(Op::New(2, lim(&c, Ask, 6, 1)));
            a.push(Op::Settle(0));
            finish(name, d, &pre, a)
        }
        // event queue at and around its capacity
        "fullq" => {
            let c = Cfg { users: 3, coin: 400_000, pc: 4_000_000, ..Cfg::default() };
            let d = build(&c);
            let mut pre = vec![
                Op::New(0, lim(&c, Ask, 7, 2)),
                Op::New(0, cid(lim(&c, Ask, 8, 1), 3)),
                Op::New(1, cid(lim(&c, Bid, 5, 2), 3)), // 1 event
                Op::New(1, lim(&c, Bid, 4, 1)),         // 1 event
            ];
            let want: usize = match arg {
                "a" => 120,
                "b" => 123,
                "c" => 126,
                _ => 127,
            };
            let mut n = 2;
            while n + 2 <= want {
                pre.push(Op::New(2, lim(&c, Bid, 3, 1)));
                pre.push(Op::CancelNth(2, Bid, 0));
                n += 2;
            }
            if n < want {
                pre.push(Op::New(2, lim(&c, Bid, 2, 1)));
            }
            let a = vec![
                Op::New(2, lim(&c, Bid, 7, 1)),
                Op::New(2, lim(&c, Bid, 7, 2)),
                Op::New(2, lim(&c, Bid, 8, 5)),
                Op::New(2, lim(&c, Ask, 4, 2)),
                Op::New(2, lim(&c, Ask, 4, 5)),
                Op::New(2, lim(&c, Ask, 9, 1)),
                Op::New(2, ty(lim(&c, Bid, 8, 5), Ty::Ioc)),
                Op::New(1, stb(lim(&c, Ask, 5, 3), Stb::CancelProvide)),
                Op::New(0, lim(&c, Bid, 7, 1)),
                Op::Take(2, Take { side: Bid, price: 8, qty: 3, pc: 300_000, min_coin: 0, min_pc: 0, limit: L }),
                Op::Take(2, Take { side: Ask, price: 4, qty: 1, pc: 1, min_coin: 0, min_pc: 0, limit: L }),
                Op::CancelNth(0, Ask, 0),
                Op::CancelNth(1, Bid, 0),
                Op::CancelCid(0, 3),
                Op::CancelCids(1, vec![3]),
                Op::Replace(1, cid(lim(&c, Bid, 5, 1), 3)),
                Op::Consume(1, ALL),
                Op::Consume(2, ALL),
                Op::Consume(4, ALL),
                Op::Consume(L, ALL),
                Op::Settle(2),
            ];
            finish(name, d, &pre, a)
        }
        // crank batches and subsets of accounts
        "crank" => {
            let c = Cfg { users: 3, ..Cfg::default() };
            let d = build(&c);
            let pre = vec![
                Op::New(0, lim(&c, Ask, 7, 1)),
                Op::New(1, lim(&c, Ask, 7, 2)),
                Op::New(0, lim(&c, Ask, 8, 2)),
            ];
            let mut a = vec![
                Op::New(2, lim(&c, Bid, 8, 4)),
                Op::New(2, lim(&c, Bid, 7, 2)),
                Op::New(1, lim(&c, Bid, 6, 2)),
                Op::New(0, lim(&c, Ask, 6, 1)),
                Op::CancelNth(1, Ask, 0),
                Op::CancelNth(0, Ask, 0),
            ];
            for m in 0..8u32 {
                for &l in &[1u16, 2, 3, L] {
                    if m == 7 || l == L || l == 2 {
                        a.push(Op::Consume(l, m));
                    }
                }
            }
            a.push(Op::Consume(0, 7));
            for u in 0..3 {
                a.push(Op::Settle(u));
            }
            finish(name, d, &pre, a)
        }
        // extreme numbers
        "huge" => {
            let c = match arg {
                "lots" => Cfg { users: 3, coin_lot: 1 << 40, pc_lot: 1 << 20, coin: u64::MAX / 4, pc: 1 << 46, dust: 0, ..Cfg::default() },
                _ => Cfg { users: 3, coin_lot: 7, pc_lot: 5, coin: u64::MAX / 4, pc: 1 << 46, dust: 0, ..Cfg::default() },
            };
            let d = build(&c);
            let mut a = vec![];
            let big = [1u64, 2, 1 << 20, 1 << 31, 1 << 32, (1 << 32) + 1, 1 << 40, (1 << 40) + 77, 1 << 62, u64::MAX / 2, u64::MAX - 1, u64::MAX];
            for u in 0..2usize {
                for &p in &[1u64, 3, 1 << 32, (1 << 32) + 3, u64::MAX] {
                    for &q in &big {
                        let q2 = (q / 3).max(1);
                        let qq = if u == 0 { q } else { q2 };
                        a.push(Op::New(u, ord(Ask, p, qq, u64::MAX)));
                        if p < (1 << 33) {
                            a.push(Op::New(u, ord(Bid, p, qq, 1 << 44)));
                        } else {
                            a.push(Op::New(u, ord(Bid, p, qq, 1 << 40)));
                            a.push(Op::New(u, ty(ord(Bid, p, qq, 1 << 30), Ty::Ioc)));
                        }
                    }
                }
            }
            a.push(Op::New(0, ord(Bid, 1, 1, u64::MAX)));
            a.push(Op::Take(1, Take { side: Bid, price: u64::MAX, qty: u64::MAX, pc: 1 << 40, min_coin: 0, min_pc: 0, limit: L }));
            a.push(Op::Take(1, Take { side: Ask, price: 1, qty: 1 << 20, pc: u64::MAX, min_coin: 0, min_pc: 0, limit: L }));
            a.push(Op::CancelNth(0, Bid, 0));
            a.push(Op::CancelNth(0, Ask, 0));
            a.push(Op::CancelNth(1, Ask, 0));
            a.push(Op::Consume(L, ALL));
            a.push(Op::Settle(0));
            finish(name, d, &[], a)
        }
        // one user holding (nearly) every order slot
        "slots" => {
            let c = Cfg { users: 2, coin: 400_000, pc: 40_000_000, slab_nodes: 301, srm: vec![(1, 100_000_000), (2, 1)], ..Cfg::default() };
            let d = build(&c);
            let mut pre = vec![];
            for i in 0..126u64 {
                if i % 2 == 0 {
                    pre.push(Op::New(0, cid(lim(&c, Bid, 5 + i % 3, 1), i + 1)));
                } else {
                    pre.push(Op::New(0, cid(lim(&c, Ask, 10 + i % 3, 1), i + 1)));
                }
                if i % 40 == 39 {
                    pre.push(Op::Consume(L, ALL));
                }
            }
            pre.push(Op::Consume(L, ALL));
            let a = vec![
                Op::New(0, cid(lim(&c, Bid, 4, 1), 500)),
                Op::New(0, cid(lim(&c, Ask, 13, 1), 501)),
                Op::New(0, ty(lim(&c, Bid, 3, 1), Ty::Ioc)),
                Op::NewSrm(0, cid(lim(&c, Ask, 9, 1), 502), 0),
                Op::NewSrm(0, cid(lim(&c, Bid, 8, 1), 503), 0),
                Op::New(1, lim(&c, Bid, 10, 2)),
                Op::New(1, lim(&c, Ask, 7, 2)),
                Op::CancelCid(0, 1),
                Op::CancelCid(0, 64),
                Op::CancelCid(0, 65),
                Op::CancelCid(0, 126),
                Op::CancelCid(0, 500),
                Op::CancelCids(0, vec![2, 63, 66, 125, 500, 501]),
                Op::Replace(0, cid(lim(&c, Bid, 6, 2), 33)),
                Op::CancelNth(0, Ask, 62),
                Op::CancelNth(0, Bid, 62),
                Op::Consume(L, ALL),
                Op::Consume(1, ALL),
                Op::Settle(0),
            ];
            finish(name, d, &pre, a)
        }
        // a market as large as those in use: hundreds of resting orders, or of pending events
        "big" => {
            let q = arg == "events";
            let c = Cfg { users: 5, oo_auth: true, prune_auth: true, coin: 4_000_000, pc: 400_000_000, slab_nodes: 1201, ev_cap: 521, ..Cfg::default() };
            let d = build(&c);
            let mut pre: Vec<Op> = (0..5).map(Op::InitOoAuth).collect();
            for i in 0..60u64 {
                for u in 0..5u64 {
                    let id = 1000 * u + i + 1;
                    pre.push(Op::New(u as usize, cid(lim(&c, Bid, 5 + (i * 7 + u) % 90, 1 + i % 3), id)));
                    pre.push(Op::New(u as usize, cid(lim(&c, Ask, 100 + (i * 11 + u) % 90, 1 + i % 2), id + 100)));
                }
                if i % 30 == 29 {
                    pre.push(Op::Consume(L, ALL));
                }
            }
            pre.push(Op::Consume(L, ALL));
            if q {
                // every account waits for the crank, in turn
                for i in 0..33u64 {
                    for u in 0..5u64 {
                        pre.push(Op::CancelCid(u as usize, 1000 * u + 2 * (i % 28) + 1 + i / 28));
                        pre.push(Op::CancelCid(u as usize, 1000 * u + i + 101));
                    }
                }
            }
            let mut a = vec![
                Op::New(0, cid(lim(&c, Bid, 104, 9), 9001)),
                Op::New(1, cid(lim(&c, Ask, 90, 9), 9002)),
                Op::New(2, cid(lim(&c, Bid, 3, 1), 9003)),
                Op::New(3, cid(lim(&c, Ask, 200, 1), 9004)),
                Op::New(4, mlim(stb(lim(&c, Bid, 130, 200), Stb::CancelProvide), 40)),
                Op::New(4, mlim(stb(lim(&c, Ask, 70, 200), Stb::CancelProvide), 40)),
                Op::Take(0, Take { side: Bid, price: 120, qty: 100, pc: 20_000_000, min_coin: 0, min_pc: 0, limit: L }),
                Op::Take(0, Take { side: Ask, price: 80, qty: 100, pc: 1, min_coin: 0, min_pc: 0, limit: L }),
                Op::CancelCid(0, 60),
                Op::CancelCid(4, 4160),
                Op::CancelCids(2, vec![2060, 2160, 2059, 2159]),
                Op::CancelNth(1, Ask, 20),
                Op::CancelNth(3, Bid, 1),
                Op::Replace(3, cid(lim(&c, Bid, 95, 2), 3060)),
                Op::Settle(0),
                Op::Settle(4),
            ];
            for &l in &[1u16, 100, 127, 128, 129, 255, 256, 257, 300, 319, 320, 321, 511, 512, 513, L] {
                a.push(Op::Consume(l, ALL));
                a.push(Op::Prune(1, l));
            }
            finish(name, d, &pre, a)
        }
        // low balances: orders that cannot be funded, deposits partly from free balances
        "funds" => {
            let c = Cfg { coin: 300, pc: 22_000, ..Cfg::default() };
            let d = build(&c);
            let mut a = vec![];
            for u in 0..2 {
                for &s in &SIDES {
                    for &q in &[1u64, 2, 3, 4] {
                        let mut o = lim(&c, s, 7, q);
                        if s == Bid {
                            o.pc = exact(&c, 7, q) + 3 * (u as u64);
                        }
                        a.push(Op::New(u, o));
                    }
                    a.push(Op::New(u, ord(s, if s == Bid { 6 } else { 8 }, 1, exact(&c, 6, 1))));
                    a.push(Op::CancelNth(u, s, 0));
                }
                a.push(Op::Settle(u));
            }
            // unspent remainders
            a.push(Op::New(0, ord(Bid, 7, 1, 22_000)));
            a.push(Op::New(0, ord(Bid, 7, 9, 7063 + 500)));
            a.push(Op::New(0, ord(Bid, 9, 1, 1)));
            a.push(Op::New(0, ord(Bid, 9, 1, 9 * 1009 - 1)));
            a.push(Op::Consume(L, ALL));
            finish(name, d, &[], a)
        }
        "stable" => {
            let keys = [
                "77quYg4MGneUdjgXCunt9GgM1usmrxKY31twEy3WHwcS",
                "5cLrMai1DsLRYc1Nio9qMTicsWtvzjzZfJPXyAoF4t1Z",
                "EERNEEnBqdGzBS8dd46wwNY5F2kwnaCQ3vsq2fNKGogZ",
                "8sFf9TW3KzxLiBXcDcjAxqabEsRroo4EiRr3UG1xbJ9m",
                "2iDSTGhjJEiRxNaLF27CY6daMYPs5hgYrP2REHd5YD62",
                "CaFjigEgJdtGPxQxRjneA1hzNcY5MsHoAAL6Et67QrC5",
            ];
            let n: usize = arg.parse().map_err(|_| "stable index")?;
            let c = Cfg { users: 3, stable: true, stable_key: keys[n].to_string(), srm: vec![(0, 0), (2, 1), (1, 100_000_000)], coin_lot: 1, pc_lot: 1, coin: 50_000_000, pc: 50_000_000, ..Cfg::default() };
            let d = build(&c);
            let mut a = vec![Op::New(0, lim(&c, Ask, 2, 400_000)), Op::New(0, lim(&c, Bid, 2, 400_000)), Op::Consume(L, ALL), Op::Sweep];
            for u in 1..3 {
                a.push(Op::NewSrm(u, lim(&c, Bid, 2, 123_456), u));
                a.push(Op::New(u, lim(&c, Ask, 2, 123_457)));
                a.push(Op::TakeSrm(u, Take { side: Bid, price: 2, qty: 99_999, pc: 1_000_000, min_coin: 0, min_pc: 0, limit: L }, u));
                a.push(Op::SettleRef(u));
            }
            finish(name, d, &[], a)
        }
        _ => Err(format!("unknown scenario {}", name)),
    }
}
