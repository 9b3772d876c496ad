//! Checks run in every reachable state: can everybody leave, and does it matter how events are
//! delivered.
use crate::abs::*;
use crate::explore::*;
use crate::spec::*;
use crate::world::*;

fn crank_op(d: &Dex, l: u16, mask: u32) -> Op {
    if d.m.crank_auth.is_some() {
        Op::ConsumePerm(l, mask)
    } else {
        Op::Consume(l, mask)
    }
}

/// runs one op on the working state; Ok(true) when accepted
fn run(d: &Dex, cur: &mut St, tmp: &mut St, op: &Op, n: &mut u64) -> Result<bool, String> {
    let a = d.decode(cur)?;
    let (_, ix) = match d.resolve(&a, op) {
        Some(x) => x,
        None => return Ok(false),
    };
    *n += 1;
    let r = d.w.exec(cur, tmp, &ix);
    if r.ok() {
        d.w.restore(tmp, cur, &ix); // copy the touched accounts over
        Ok(true)
    } else {
        Ok(false)
    }
}

fn drain_events(d: &Dex, cur: &mut St, tmp: &mut St, n: &mut u64) -> Result<(), String> {
    loop {
        let a = d.decode(cur)?;
        if a.events.is_empty() {
            return Ok(());
        }
        let before = a.events.len();
        run(d, cur, tmp, &crank_op(d, 65535, 0xffff_ffff), n)?;
        let b = d.decode(cur)?;
        if b.events.len() >= before {
            return Err(format!("event delivery is stuck with {} events queued", before));
        }
    }
}

/// From any reachable state every user can cancel, be credited, withdraw everything and close,
/// and the operator can sweep the rest: the vaults end up empty.
pub fn exit(d: &Dex, st: &St, a: &Abs, ctx: &mut Ctx, out: &mut Vec<Finding>) {
    let mut n = 0;
    let r = exit_inner(d, st, a, &mut ctx.a, &mut ctx.b, &mut n);
    ctx.stats.transitions += n;
    if let Err(e) = r {
        out.push((Asp::Exit, e));
    }
}

fn exit_inner(d: &Dex, st: &St, a0: &Abs, cur: &mut St, tmp: &mut St, n: &mut u64) -> Result<(), String> {
    cur.copy_from(st);
    tmp.copy_from(st);
    let m = &d.m;
    // what everybody is owed
    let mut owed: Vec<(i128, i128)> = vec![(0, 0); d.users.len()];
    for (i, u) in d.users.iter().enumerate() {
        for o in a0.oos.iter().filter(|o| o.acc == u.oo && o.flags == 5 && o.market == m.market) {
            owed[i].0 += o.ct as i128;
            owed[i].1 += o.pt as i128;
        }
        for e in a0.events.iter().filter(|e| e.owner == u.oo && e.fill && e.maker) {
            if e.bid {
                owed[i].0 += e.released as i128;
                owed[i].1 -= e.paid as i128;
            } else {
                owed[i].0 -= e.paid as i128;
                owed[i].1 += e.released as i128;
            }
        }
    }
    let live: Vec<usize> = d
        .users
        .iter()
        .enumerate()
        .filter(|(_, u)| a0.oos.iter().any(|o| o.acc == u.oo && o.flags == 5 && o.market == m.market && o.owner == u.owner))
        .map(|(i, _)| i)
        .collect();
    for &u in &live {
        for &s in &[Bid, Ask] {
            loop {
                let a = d.decode(cur)?;
                let b = if s == Bid { &a.bids } else { &a.asks };
                if !b.iter().any(|l| l.owner == d.users[u].oo) {
                    break;
                }
                if !run(d, cur, tmp, &Op::CancelNth(u, s, 0), n)? {
                    // only a full event queue may stand in the way
                    if a.events.len() < m.ev_cap {
                        return Err(format!("user {} cannot cancel a resting order", u));
                    }
                    drain_events(d, cur, tmp, n)?;
                    if !run(d, cur, tmp, &Op::CancelNth(u, s, 0), n)? {
                        return Err(format!("user {} cannot cancel a resting order", u));
                    }
                }
            }
        }
    }
    drain_events(d, cur, tmp, n)?;
    let before = d.decode(cur)?;
    for &u in &live {
        let o = before.oos.iter().find(|o| o.acc == d.users[u].oo).unwrap();
        if (o.ct as i128, o.pt as i128) != owed[u] {
            return Err(format!("user {} is owed {:?} but has {} coin and {} pc after leaving the book", u, owed[u], o.ct, o.pt));
        }
        if o.cf != o.ct || o.pf != o.pt {
            return Err(format!("user {} still has locked funds ({}/{} coin, {}/{} pc) without any order", u, o.cf, o.ct, o.pf, o.pt));
        }
        if !run(d, cur, tmp, &Op::SettleRef(u), n)? {
            return Err(format!("user {} cannot withdraw", u));
        }
        let now = d.decode(cur)?;
        let w = |a: &Abs, t: Idx| a.tok[d.tok_pos(t).unwrap()] as i128;
        let us = &d.users[u];
        if w(&now, us.coin) - w(&before, us.coin) != owed[u].0 || w(&now, us.pc) - w(&before, us.pc) != owed[u].1 {
            return Err(format!("user {} is owed {:?} but received something else", u, owed[u]));
        }
        if !run(d, cur, tmp, &Op::Close(u), n)? {
            return Err(format!("user {} cannot close the emptied account", u));
        }
    }
    let a = d.decode(cur)?;
    let disabled = a.flags & 128 != 0;
    if !disabled && !run(d, cur, tmp, &Op::Sweep, n)? {
        return Err("fees cannot be swept".into());
    }
    let a = d.decode(cur)?;
    let (cv, pv) = (a.tok[d.tok_pos(m.coin_vault).unwrap()], a.tok[d.tok_pos(m.pc_vault).unwrap()]);
    let fees = if disabled { a.pc_fees } else { 0 };
    if cv != 0 || pv != fees {
        return Err(format!("after everybody left the vaults still hold {} coin and {} pc", cv, pv - fees));
    }
    Ok(())
}

/// Delivering the queued events in any batching, by anybody, with withdrawals in between, leads to
/// the same balances.
pub fn crank(d: &Dex, st: &St, a: &Abs, ctx: &mut Ctx, out: &mut Vec<Finding>) {
    if a.events.is_empty() {
        return;
    }
    let mut n = 0;
    let r = crank_inner(d, st, a, &mut ctx.a, &mut ctx.b, &mut n);
    ctx.stats.transitions += n;
    if let Err(e) = r {
        out.push((Asp::Crank, e));
    }
}

#[derive(PartialEq, Debug)]
struct Fin {
    oos: Vec<Oo>,
    tok: Vec<u64>,
    fees: (u64, u64, u64, u64),
}

fn crank_inner(d: &Dex, st: &St, a0: &Abs, cur: &mut St, tmp: &mut St, n: &mut u64) -> Result<(), String> {
    let total = a0.events.len();
    let mut fins: Vec<(Fin, Fin)> = vec![];
    let plans: usize = 4;
    for plan in 0..plans {
        cur.copy_from(st);
        tmp.copy_from(st);
        let mut left = total;
        let mut rounds = 0;
        while left > 0 {
            let a = d.decode(cur)?;
            let op = match plan {
                0 => crank_op(d, 65535, 0xffff_ffff),
                1 => crank_op(d, 1, 0xffff_ffff),
                2 => {
                    // only the account the next event is for, unbounded batch
                    let who = d.users.iter().position(|u| u.oo == a.events[0].owner).unwrap_or(0);
                    crank_op(d, 65535, 1 << who)
                }
                _ => crank_op(d, 2, 0xffff_ffff),
            };
            if !run(d, cur, tmp, &op, n)? {
                return Err(format!("event delivery refused with {} events left", left));
            }
            let b = d.decode(cur)?;
            if b.events.len() >= left || b.events[..] != a.events[left - b.events.len()..] {
                return Err(format!("delivery plan {}: {} events became {}, not a suffix of them", plan, left, b.events.len()));
            }
            left = b.events.len();
            if plan == 3 {
                for u in 0..d.users.len() {
                    run(d, cur, tmp, &Op::SettleRef(u), n)?;
                }
            }
            rounds += 1;
            if rounds > 3 * total + 3 {
                return Err("event delivery does not finish".into());
            }
        }
        let mid = d.decode(cur)?;
        // nothing is left to deliver: a further crank changes nothing
        for u in 0..d.users.len() {
            run(d, cur, tmp, &Op::SettleRef(u), n)?;
        }
        let end = d.decode(cur)?;
        let f = |a: Abs| Fin { oos: a.oos, tok: a.tok, fees: (a.coin_dep, a.pc_dep, a.pc_fees, a.rebates) };
        fins.push((f(mid), f(end)));
    }
    for p in 1..plans {
        if p != 3 && fins[p].0 != fins[0].0 {
            return Err(format!("delivering the events in plan {} gives different balances than one batch: {:?} vs {:?}", p, fins[p].0, fins[0].0));
        }
        if fins[p].1 != fins[0].1 {
            return Err(format!("delivering the events in plan {} pays out differently than one batch: {:?} vs {:?}", p, fins[p].1, fins[0].1));
        }
    }
    Ok(())
}
