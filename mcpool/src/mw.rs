//! The middleware framework itself: a stack of scripted middlewares in front of the real order
//! book. Every request kind is combined with every script (adjustments, extra instructions,
//! callbacks, failures at every stage).
use crate::explore::*;
use crate::proxy::{build, New, X};
use crate::rt::*;
use serum_dex::instruction::{CancelOrderInstructionV2, NewOrderInstructionV3};
use serum_dex_permissioned::{Context, MarketMiddleware, MarketProxy};
use solana_program::{
    account_info::AccountInfo,
    entrypoint::ProgramResult,
    instruction::{AccountMeta, Instruction},
    program_error::ProgramError,
    pubkey::Pubkey,
};
use std::num::NonZeroU64;

// a script: what a middleware of the stack does with the request
const EDIT: u8 = 1;
const PRE: u8 = 2;
const POST: u8 = 4;
const BACK: u8 = 8;
const SIGN: u8 = 16;
const BITS: u8 = 31;
// and where it fails (upper three bits)
const F_DATA: u8 = 1 << 5;
const F_HOOK: u8 = 2 << 5;
const F_PRE: u8 = 3 << 5;
const F_POST: u8 = 4 << 5;
const F_BACK: u8 = 5 << 5;
const FAILS: u8 = 7 << 5;
// instead of failing: keeps the stack's own accounts from the order book
const STRIP: u8 = 6 << 5;
fn stacks_own(k: &Pubkey) -> bool {
    *k == note_id() || (1..5u8).any(|i| seed_addr(i).0 == *k || second_addr(i).0 == *k)
}

#[derive(Default)]
struct Probe {
    id: u8,
    script: u8,
}
fn seed_addr(id: u8) -> (Pubkey, u8) {
    find_pda(&[b"probe", &[id]], &probe_id())
}
fn second_addr(id: u8) -> (Pubkey, u8) {
    find_pda(&[b"second", &[id]], &probe_id())
}
fn back<'a, 'info>(prog: &'a Pubkey, accs: Vec<AccountInfo<'info>>, ix: Vec<u8>, args: Vec<u8>) -> ProgramResult {
    let fail = args.get(0) == Some(&1);
    note(Ev::Back(*prog, accs.iter().map(|a| *a.key).collect(), ix, args));
    if fail {
        Err(ProgramError::Custom(79))
    } else {
        Ok(())
    }
}
fn find<'info>(ctx: &Context<'_, 'info>, k: &Pubkey) -> Option<AccountInfo<'info>> {
    ctx.accounts.iter().find(|a| a.key == k).cloned()
}
impl Probe {
    fn hook(&self, name: &'static str, ctx: &mut Context, seen: Vec<u8>) -> ProgramResult {
        note(Ev::Hook(self.id, name, seen));
        let s = self.script;
        if s & FAILS == F_HOOK {
            return Err(ProgramError::Custom(78));
        }
        // the last three accounts of a request are the note program and two derived addresses
        let me = seed_addr(self.id);
        let two = second_addr(self.id);
        let seeds = vec![vec![b"probe".to_vec(), vec![self.id], vec![me.1]], vec![b"second".to_vec(), vec![self.id], vec![two.1]]];
        let parts: Vec<AccountInfo> = vec![find(ctx, &me.0), find(ctx, &two.0), find(ctx, &note_id())].into_iter().flatten().collect();
        let ix = |n: u8, fail: bool| Instruction { program_id: note_id(), data: vec![fail as u8, n, self.id], accounts: vec![AccountMeta::new(me.0, true), AccountMeta::new_readonly(two.0, true)] };
        if s & PRE != 0 {
            ctx.pre_instructions.push((ix(1, s & FAILS == F_PRE), parts.clone(), seeds.clone()));
        }
        if s & POST != 0 {
            ctx.post_instructions.push((ix(2, s & FAILS == F_POST), parts.clone(), seeds.clone()));
        }
        if s & BACK != 0 {
            ctx.post_callbacks.push((back, parts, vec![(s & FAILS == F_BACK) as u8, self.id]));
        }
        if s & SIGN != 0 {
            ctx.seeds.push(seeds[0].clone());
            for a in ctx.accounts.iter_mut().filter(|a| *a.key == me.0) {
                a.is_signer = true;
            }
        }
        if s & FAILS == STRIP {
            ctx.accounts.retain(|a| !stacks_own(a.key));
        }
        Ok(())
    }
    fn n(&self, v: u64) -> u64 {
        if self.script & EDIT != 0 {
            v.wrapping_mul(3).wrapping_add(self.id as u64)
        } else {
            v
        }
    }
}
impl MarketMiddleware for Probe {
    fn instruction(&mut self, data: &mut &[u8]) -> ProgramResult {
        note(Ev::Hook(self.id, "data", vec![]));
        self.script = *data.get(0).ok_or(ProgramError::InvalidInstructionData)?;
        *data = &data[1..];
        if self.script & FAILS == F_DATA {
            return Err(ProgramError::Custom(76));
        }
        Ok(())
    }
    fn init_open_orders(&self, ctx: &mut Context) -> ProgramResult {
        self.hook("init", ctx, vec![])
    }
    fn new_order_v3(&self, ctx: &mut Context, ix: &mut NewOrderInstructionV3) -> ProgramResult {
        self.hook("new", ctx, [ix.max_coin_qty.get().to_le_bytes(), ix.client_order_id.to_le_bytes()].concat())?;
        ix.max_coin_qty = NonZeroU64::new(self.n(ix.max_coin_qty.get())).ok_or(ProgramError::InvalidArgument)?;
        ix.client_order_id = self.n(ix.client_order_id);
        Ok(())
    }
    fn cancel_order_v2(&self, ctx: &mut Context, ix: &mut CancelOrderInstructionV2) -> ProgramResult {
        self.hook("cancel", ctx, ix.order_id.to_le_bytes().to_vec())?;
        if self.script & EDIT != 0 {
            ix.order_id = (ix.order_id >> 64) << 64 | self.n(ix.order_id as u64) as u128;
        }
        Ok(())
    }
    fn cancel_order_by_client_id_v2(&self, ctx: &mut Context, id: &mut u64) -> ProgramResult {
        self.hook("cancel_cid", ctx, id.to_le_bytes().to_vec())?;
        *id = self.n(*id);
        Ok(())
    }
    fn settle_funds(&self, ctx: &mut Context) -> ProgramResult {
        self.hook("settle", ctx, vec![])
    }
    fn close_open_orders(&self, ctx: &mut Context) -> ProgramResult {
        self.hook("close", ctx, vec![])
    }
    fn consume_events(&self, ctx: &mut Context, l: &mut u16) -> ProgramResult {
        self.hook("consume", ctx, l.to_le_bytes().to_vec())?;
        *l = self.n(*l as u64) as u16;
        Ok(())
    }
    fn consume_events_permissioned(&self, ctx: &mut Context, l: &mut u16) -> ProgramResult {
        self.hook("consume_permissioned", ctx, l.to_le_bytes().to_vec())?;
        *l = self.n(*l as u64) as u16;
        Ok(())
    }
    fn prune(&self, ctx: &mut Context, l: &mut u16) -> ProgramResult {
        self.hook("prune", ctx, l.to_le_bytes().to_vec())?;
        *l = self.n(*l as u64) as u16;
        Ok(())
    }
    fn fallback(&self, ctx: &mut Context) -> ProgramResult {
        self.hook("fallback", ctx, vec![])
    }
}

/// the size of the stack is the first byte of the data
pub fn entry(prog: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let n = *data.get(0).ok_or(ProgramError::InvalidInstructionData)? as usize;
    let mut ps: Vec<Probe> = (0..n).map(|i| Probe { id: i as u8 + 1, script: 0 }).collect();
    let mut p = MarketProxy::new();
    for m in ps.iter_mut() {
        p = p.middleware(m);
    }
    log_start();
    p.run(prog, infos, &data[1..])
}

// ---------------------------------------------------------------- specification

struct Plan {
    log: Vec<Ev>,
    relay: Option<Ix>,
    /// an extra instruction, callback or hook refuses
    fails: bool,
}

fn plan(w: &World, ix: &Ix) -> Result<Plan, &'static str> {
    let n = *ix.data.get(0).ok_or("no data")? as usize;
    let scripts = ix.data.get(1..1 + n).ok_or("no scripts")?;
    let d = &ix.data[1 + n..];
    if ix.accs.first().map(|a| w.key(*a)) != Some(dex_id()) {
        return Err("not the order book");
    }
    let mut a = ix.accs[1..].to_vec();
    let mut log = vec![];
    for (i, s) in scripts.iter().enumerate() {
        log.push(Ev::Hook(i as u8 + 1, "data", vec![]));
        if s & FAILS == F_DATA {
            return Err("a middleware refuses the data");
        }
    }
    let kind = crate::proxy::kind_of(d);
    let (name, need) = match kind {
        Some(15) => ("init", 4),
        Some(10) => ("new", 12),
        Some(11) => ("cancel", 6),
        Some(12) => ("cancel_cid", 6),
        Some(5) => ("settle", 10),
        Some(14) => ("close", 4),
        Some(3) => ("consume", 4),
        Some(17) => ("consume_permissioned", 3),
        Some(16) => ("prune", 7),
        _ => ("fallback", 0),
    };
    if a.len() < need {
        return Err("accounts missing");
    }
    let mut d = d.to_vec();
    let mut signers = ix.signers.clone();
    let (mut pre, mut post, mut backs) = (vec![], vec![], vec![]);
    let mut fails = false;
    // the wire format knows an order without expiry; it is passed on as one that never expires
    if kind == Some(10) && d.len() == 51 {
        d.extend_from_slice(&i64::MAX.to_le_bytes());
    }
    for (i, s) in scripts.iter().enumerate() {
        let id = i as u8 + 1;
        let edit = |v: u64| if s & EDIT != 0 { v.wrapping_mul(3).wrapping_add(id as u64) } else { v };
        let u = |d: &[u8], o: usize| {
            let mut x = [0u8; 8];
            x.copy_from_slice(&d[o..o + 8]);
            u64::from_le_bytes(x)
        };
        let seen = match name {
            "new" => [&d[5 + 12..5 + 20], &d[5 + 36..5 + 44]].concat(),
            "cancel" => d[9..25].to_vec(),
            "cancel_cid" => d[5..13].to_vec(),
            "consume" | "consume_permissioned" | "prune" => d[5..7].to_vec(),
            _ => vec![],
        };
        log.push(Ev::Hook(id, name, seen));
        if s & FAILS == F_HOOK {
            return Err("a middleware refuses the request");
        }
        match name {
            "new" => {
                let q = edit(u(&d, 17));
                if q == 0 {
                    return Err("zero");
                }
                d[17..25].copy_from_slice(&q.to_le_bytes());
                let c = edit(u(&d, 41));
                d[41..49].copy_from_slice(&c.to_le_bytes());
            }
            "cancel" => {
                let c = edit(u(&d, 9));
                d[9..17].copy_from_slice(&c.to_le_bytes());
            }
            "cancel_cid" => {
                let c = edit(u(&d, 5));
                d[5..13].copy_from_slice(&c.to_le_bytes());
            }
            "consume" | "consume_permissioned" | "prune" => {
                let l = edit(u16::from_le_bytes([d[5], d[6]]) as u64) as u16;
                d[5..7].copy_from_slice(&l.to_le_bytes());
            }
            _ => (),
        }
        let (me, two) = (seed_addr(id).0, second_addr(id).0);
        let present = w.idx(&me).map_or(false, |m| a.contains(&m)) && w.idx(&two).map_or(false, |m| a.contains(&m)) && a.iter().any(|x| w.key(*x) == note_id());
        let call = |n: u8, f: bool| Ev::Call(note_id(), vec![f as u8, n, id], vec![(me, true, true), (two, true, false)]);
        if s & PRE != 0 {
            pre.push(call(1, s & FAILS == F_PRE));
            fails |= s & FAILS == F_PRE || !present;
        }
        if s & POST != 0 {
            post.push(call(2, s & FAILS == F_POST));
            fails |= s & FAILS == F_POST || !present;
        }
        if s & BACK != 0 {
            backs.push((vec![(s & FAILS == F_BACK) as u8, id], if present { vec![me, two, note_id()] } else { vec![] }));
            fails |= s & FAILS == F_BACK;
        }
        if s & SIGN != 0 {
            if let Some(m) = w.idx(&me) {
                signers.push(m);
            }
        }
        if s & FAILS == STRIP {
            a.retain(|i| !stacks_own(&w.key(*i)));
        }
    }
    if name == "fallback" {
        return Ok(Plan { log, relay: None, fails: false });
    }
    log.extend(pre);
    let metas = a.iter().map(|i| (w.key(*i), signers.contains(i), w.writable(*i))).collect();
    log.push(Ev::Call(dex_id(), d.clone(), metas));
    log.extend(post);
    for (args, accs) in backs {
        log.push(Ev::Back(ix.prog, accs, d.clone(), args));
    }
    Ok(Plan { log, relay: Some(Ix { prog: dex_id(), data: d, accs: a.to_vec(), signers }), fails })
}

fn judge(w: &World, pre: &St, ix: &Ix, kind: &'static str, out: &Out, post: &St) -> Vec<Finding> {
    let got = log_take();
    let mut f = vec![];
    if ix.prog != probe_id() {
        return f;
    }
    let want = plan(w, ix);
    let (ok, st, why) = match &want {
        Err(e) => (false, pre.clone(), *e),
        Ok(p) => match &p.relay {
            _ if p.fails => (false, pre.clone(), "an extra instruction or callback refuses"),
            None => (true, pre.clone(), ""),
            Some(r) => {
                let (o, s) = w.exec(pre, r);
                (o.ok(), s, "refused when called directly")
            }
        },
    };
    if ok != out.ok() {
        f.push(("result", if ok { format!("[{}] refused ({:?}) although it is legitimate", kind, out) } else { format!("[{}] accepted although it must be refused ({})", kind, why) }));
        return f;
    }
    if st != *post {
        f.push(("state", format!("[{}] has another effect than the adjusted request sent directly", kind)));
    }
    if let (true, Ok(p)) = (ok, want) {
        if p.log != got {
            let i = p.log.iter().zip(&got).take_while(|(a, b)| a == b).count();
            f.push(("order", format!("[{}] step {} of handling the request was {:?} instead of {:?}", kind, i + 1, got.get(i), p.log.get(i))));
        }
    }
    f
}

// ---------------------------------------------------------------- scenarios

fn world() -> X {
    let mut x = build(true);
    x.w.program("probe", probe_id());
    x.w.program("note", note_id());
    for i in 1..5u8 {
        x.w.add(&format!("probe_pda{}", i), seed_addr(i).0, solana_program::system_program::ID, 0, vec![]);
        let z = x.w.add(&format!("probe_second{}", i), second_addr(i).0, solana_program::system_program::ID, 0, vec![]);
        x.w.ro.push(z);
    }
    x.rich();
    // an account without orders or funds
    let i = x.w.add("idle_oo", mk_key(7, 2), dex_id(), 60_000_000_000, vec![0; crate::proxy::OO_LEN]);
    let ix = Ix { prog: dex_id(), data: vec![0, 15, 0, 0, 0], accs: vec![i, x.users[0], x.m3.market, x.rent], signers: vec![x.users[0]] };
    let (_, s) = x.w.exec(&x.w.st, &ix);
    x.w.st = s;
    x
}

/// plain requests as the order book itself takes them
fn requests(x: &X) -> Vec<(&'static str, Vec<u8>, Vec<Idx>, Vec<Idx>)> {
    let strip = |i: Ix| (i.data[1..].to_vec(), i.accs[1..].to_vec(), i.signers);
    let oo = |u: u64| x.w.idx(&mk_key(6, u)).unwrap();
    let mut v = vec![];
    // on the open market the users' own accounts trade
    let own = |mut i: Ix| {
        for a in i.accs.iter_mut() {
            if *a == x.m3.oo[0] {
                *a = oo(0);
            }
            if *a == x.m3.oo[1] {
                *a = oo(1);
            }
        }
        strip(i)
    };
    let base = New { side: 0, price: 10, qty: 2, pc: 30_000, stb: 0, ty: 0, cid: 1, limit: 5, ts: None };
    let mut put = |n: &'static str, (d, a, s): (Vec<u8>, Vec<Idx>, Vec<Idx>)| v.push((n, d, a, s));
    put("new", own(x.new(2, 0, base)));
    put("new", own(x.new(2, 1, New { side: 1, price: 5, qty: 1, pc: 1, ts: Some(5_000), ..base })));
    put("new", own(x.new(2, 0, New { ts: Some(1), ..base })));
    put("cancel", own(x.cancel(2, 0, 0, 5u128 << 64 | 0)));
    put("cancel", own(x.cancel(2, 0, 0, crate::proxy::orders(&x.w.st, oo(0)).first().map_or(1, |o| o.1))));
    put("cancel_cid", own(x.cancel_cid(2, 0, 9)));
    put("cancel_cid", own(x.cancel_cid(2, 0, 2)));
    put("settle", own(x.settle(2, 0)));
    put("close", own(x.close(2, 0)));
    put("close", own(x.close(2, 1)));
    for l in &[0u16, 1, 3, u16::MAX] {
        put("consume", own(x.consume(2, *l, &[0, 1])));
        put("consume", strip(x.consume(0, *l, &[0, 1])));
        put("consume_permissioned", strip(x.consume_perm(0, *l, &[0, 1])));
        put("prune", strip(x.prune(0, 0, *l)));
    }
    let idle = x.w.idx(&mk_key(7, 2)).unwrap();
    v.push(("close", vec![0, 14, 0, 0, 0], vec![idle, x.users[0], x.users[1], x.m3.market], vec![x.users[0]]));
    let fresh = x.w.idx(&mk_key(7, 1)).unwrap();
    v.push(("init", vec![0, 15, 0, 0, 0], vec![fresh, x.users[0], x.m3.market, x.rent], vec![x.users[0]]));
    // not relayed
    v.push(("fallback", vec![0, 2, 0, 0, 0, 5, 0], vec![x.m3.market, x.m3.event_q], vec![x.users[0]]));
    v.push(("fallback", vec![], vec![x.m3.market], vec![]));
    v.push(("fallback", vec![1, 5, 0, 0, 0], vec![x.m3.market], vec![]));
    v.push(("fallback", vec![0, 5, 0, 0, 0, 0], x.m3.oo.clone(), vec![]));
    v.push(("fallback", vec![0, 99, 0, 0, 0], vec![], vec![]));
    v
}

pub fn scenario(name: &str) -> Vec<Scn> {
    let mut x = world();
    x.w.add("fresh_oo", mk_key(7, 1), dex_id(), 60_000_000_000, vec![0; crate::proxy::OO_LEN]);
    let notes = x.w.idx(&note_id()).unwrap();
    let seconds: Vec<Idx> = (1..5u8).map(|i| x.w.idx(&second_addr(i).0).unwrap()).collect();
    if name == "mw:readonly" {
        // users who pay for nothing sign read-only
        let us = x.users.clone();
        x.w.ro.extend(us);
    }
    let pdas: Vec<Idx> = (1..5u8).map(|i| x.w.idx(&seed_addr(i).0).unwrap()).collect();
    let mut ops = vec![];
    for (rn, (k, d, a, s)) in requests(&x).into_iter().enumerate() {
        let mut put = |scripts: &[u8], accs: Vec<Idx>, what: &str| {
            let mut data = vec![scripts.len() as u8];
            data.extend_from_slice(scripts);
            data.extend_from_slice(&d);
            ops.push(op(k, format!("request {} ({}) through {:?}{}", rn, k, scripts, what), Ix { prog: probe_id(), data, accs, signers: s.clone() }));
        };
        let with = |n: usize| {
            let mut v = vec![x.dex];
            v.extend_from_slice(&a);
            v.push(notes);
            v.extend_from_slice(&pdas[..n]);
            v.extend_from_slice(&seconds[..n]);
            v
        };
        if name == "mw:one" || name == "mw:readonly" {
            // stacks of none and one: every script
            put(&[], with(0), "");
            for b in 0..=255u8 {
                put(&[b], with(1), "");
            }
            // missing and extra accounts, another first account
            for n in 0..=a.len() {
                let mut v = vec![x.dex];
                v.extend_from_slice(&a[..n]);
                put(&[], v.clone(), &format!(" with {} accounts", n));
                put(&[EDIT | BACK], v.clone(), &format!(" with {} accounts", n));
                put(&[EDIT | BACK, EDIT], v, &format!(" with {} accounts", n));
            }
            for first in 0..x.w.keys.len() as Idx {
                let mut v = with(1);
                v[0] = first;
                put(&[EDIT | PRE], v.clone(), &format!(" as if {} were the order book", x.w.name(first)));
                put(&[], v, &format!(" as if {} were the order book", x.w.name(first)));
            }
        } else if name == "mw:two" {
            for b in 0..=BITS {
                for c in 0..=BITS {
                    put(&[b, c], with(2), "");
                    put(&[b, c | STRIP], with(2), "");
                }
            }
            for f in &[F_DATA, F_HOOK, F_PRE, F_POST, F_BACK] {
                for b in 0..=BITS {
                    for c in &[0, EDIT, PRE | POST | BACK, BITS] {
                        put(&[b | f, *c], with(2), "");
                        put(&[*c, b | f], with(2), "");
                        put(&[b | f, *c | STRIP], with(2), "");
                    }
                }
            }
        } else {
            let some = [0, EDIT, PRE | POST, BACK | EDIT, SIGN | PRE, BITS];
            for b in &some {
                for c in &some {
                    for e in &some {
                        put(&[*b, *c, *e], with(3), "");
                        put(&[*b, *c, *e | STRIP], with(3), "");
                        put(&[*b, *c | STRIP, *e], with(3), "");
                        put(&[*b, *c, *e, EDIT | POST | PRE | BACK | STRIP], with(4), "");
                        put(&[*b, *c, *e, EDIT | POST | PRE | BACK], with(4), "");
                    }
                    for f in &[F_DATA, F_HOOK, F_PRE, F_POST, F_BACK] {
                        put(&[*b, *c | f, BITS], with(3), "");
                        put(&[*b, BITS, *c | f], with(3), "");
                        put(&[BITS | f, *b, *c], with(3), "");
                    }
                }
            }
        }
    }
    let init = x.w.st.clone();
    vec![Scn { name: name.into(), w: x.w, init, ops, judge: Box::new(judge) }]
}
