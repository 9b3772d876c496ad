//! Breadth-first exhaustive exploration of all operation sequences of a scenario, executing the
//! real program on every transition and comparing it with the reference specification.
use crate::abs::*;
use crate::spec::*;
use crate::world::*;
use std::collections::{BTreeMap, HashSet};
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub type Hook = fn(&Dex, &St, &Abs, &mut Ctx, &mut Vec<Finding>);

pub struct Scn {
    pub name: String,
    pub dex: Dex,
    pub init: St,
    pub alpha: Vec<Op>,
}

/// What a property looks at.
#[derive(Clone)]
pub struct View {
    pub kinds: &'static [&'static str], // empty: all
    pub asps: &'static [Asp],
    pub hook: Option<Hook>,
}

impl View {
    pub fn sees_kind(&self, k: &str) -> bool {
        self.kinds.is_empty() || self.kinds.contains(&k)
    }
}

#[derive(Default, Clone)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub hook_runs: u64,
    pub depth: usize,
    pub complete: bool,
    pub kinds: BTreeMap<String, (u64, u64)>,
    pub nontrivial: u64,
    /// traces that were not extended further: states of the deepest level
    pub leaves: u64,
}
impl Stats {
    pub fn merge(&mut self, o: &Stats) {
        self.states += o.states;
        self.transitions += o.transitions;
        self.hook_runs += o.hook_runs;
        self.nontrivial += o.nontrivial;
        self.leaves += o.leaves;
        for (k, v) in &o.kinds {
            let e = self.kinds.entry(k.clone()).or_insert((0, 0));
            e.0 += v.0;
            e.1 += v.1;
        }
    }
}

pub struct Violation {
    pub path: Vec<usize>,
    pub asp: Asp,
    pub msg: String,
}

/// Per-thread scratch space.
pub struct Ctx {
    pub pre: St,
    pub post: St,
    pub a: St,
    pub b: St,
    pub stats: Stats,
}
impl Ctx {
    pub fn new(s: &St) -> Self {
        Ctx { pre: s.clone(), post: s.clone(), a: s.clone(), b: s.clone(), stats: Stats::default() }
    }
}

pub enum StepOut {
    /// operation has no meaning in this state
    Skip,
    Rejected,
    /// accepted; abstract post state (None: undecodable)
    Moved(Option<Abs>),
}

/// One checked transition: real program, specification, comparison.
/// `post` must equal `pre` on entry.
pub fn checked_step(
    d: &Dex,
    pre: &St,
    pa: &Abs,
    post: &mut St,
    op: &Op,
    out: &mut Vec<Finding>,
    stats: &mut Stats,
) -> (StepOut, Option<(Kind, Ix)>) {
    let (k, ix) = match d.resolve(pa, op) {
        None => return (StepOut::Skip, None),
        Some(x) => x,
    };
    let res = if let Kind::Clock(t) = k {
        post.clock = t;
        Out::Ok
    } else {
        d.w.exec(pre, post, &ix)
    };
    stats.transitions += 1;
    let e = stats.kinds.entry(k.name().to_string()).or_insert((0, 0));
    if res.ok() {
        e.0 += 1
    } else {
        e.1 += 1
    }
    // an instruction aimed at the second market is judged as an instruction of that market
    let alt = match (&d.alt, k.market_pos(ix.accs.len())) {
        (Some(x), Some(p)) if ix.accs.get(p) == Some(&x.m.market) => Some(x),
        _ => None,
    };
    if let Some(x) = alt {
        let xa = match x.decode(pre) {
            Ok(a) => a,
            Err(_) => return (StepOut::Rejected, Some((k, ix))),
        };
        judge(x, pre, &xa, post, &k, &ix, &res, out);
        if res.ok() {
            foreign(d, &d.m, pre, post, out);
            return (StepOut::Moved(d.decode(post).ok()), Some((k, ix)));
        }
        return (StepOut::Rejected, Some((k, ix)));
    }
    let got = judge(d, pre, pa, post, &k, &ix, &res, out);
    if !res.ok() {
        return (StepOut::Rejected, Some((k, ix)));
    }
    if let Some(m2) = &d.m2 {
        foreign(d, m2, pre, post, out);
    }
    (StepOut::Moved(got), Some((k, ix)))
}

/// accounts of a market the instruction is not about must not change
fn foreign(d: &Dex, m: &Mkt, pre: &St, post: &St, out: &mut Vec<Finding>) {
    for &i in &[m.market, m.req_q, m.event_q, m.bids, m.asks] {
        if d.w.data(pre, i) != d.w.data(post, i) || pre.lam[i as usize] > post.lam[i as usize] {
            out.push((Asp::Foreign, format!("{} of another market was modified", d.w.name(i))));
        }
    }
    // anybody may send tokens to a vault, nobody may take any
    for &i in &[m.coin_vault, m.pc_vault] {
        let (x, y) = (d.w.data(pre, i), d.w.data(post, i));
        if tok_bal(y) < tok_bal(x) || x[..64] != y[..64] || x[72..] != y[72..] {
            out.push((Asp::Foreign, format!("{} of another market was drained", d.w.name(i))));
        }
    }
}

fn judge(d: &Dex, pre: &St, pa: &Abs, post: &St, k: &Kind, ix: &Ix, res: &Out, out: &mut Vec<Finding>) -> Option<Abs> {
    let sp = Spec { d, st: pre, ix };
    let mut fills = vec![];
    if !res.ok() {
        if sp.step(pa, k, None, &mut fills).is_ok() {
            out.push((Asp::Result, format!("refused ({:?}) although it is legitimate", res)));
        }
        return None;
    }
    let got = match d.decode(post) {
        Ok(g) => g,
        Err(e) => {
            out.push((Asp::Tree, e));
            return None;
        }
    };
    match sp.step(pa, k, Some(&got), &mut fills) {
        Err("unspecified") => (),
        Err(e) => out.push((Asp::Result, format!("accepted although it must be refused ({})", e))),
        Ok(want) => compare(d, k, pa, &want, &got, &fills, out),
    }
    Some(got)
}

struct Node {
    parent: u32,
    op: u32,
}

struct Diff {
    w: Vec<(u32, u64)>,
    lam: Vec<(u16, u64)>,
    clock: i64,
}

fn diff(init: &St, s: &St) -> Diff {
    let mut w = vec![];
    for (i, (a, b)) in init.buf.chunks_exact(8).zip(s.buf.chunks_exact(8)).enumerate() {
        if a != b {
            let mut x = [0u8; 8];
            x.copy_from_slice(b);
            w.push((i as u32, u64::from_le_bytes(x)));
        }
    }
    let mut lam = vec![];
    for (i, (a, b)) in init.lam.iter().zip(s.lam.iter()).enumerate() {
        if a != b {
            lam.push((i as u16, *b));
        }
    }
    w.shrink_to_fit();
    Diff { w, lam, clock: s.clock }
}
fn undiff(init: &St, d: &Diff, s: &mut St) {
    s.copy_from(init);
    for (i, w) in &d.w {
        let o = *i as usize * 8;
        s.buf[o..o + 8].copy_from_slice(&w.to_le_bytes());
    }
    for (i, l) in &d.lam {
        s.lam[*i as usize] = *l;
    }
    s.clock = d.clock;
}

const SHARDS: usize = 256;

pub struct Limits {
    pub depth: usize,
    pub max_states: u64,
    pub deadline: Option<Instant>,
    pub threads: usize,
}

pub fn explore(s: &Scn, v: &View, lim: &Limits) -> (Stats, Option<Violation>) {
    let d = &s.dex;
    let mut stats = Stats::default();
    let visited: Vec<Mutex<HashSet<u128>>> = (0..SHARDS).map(|_| Mutex::new(HashSet::new())).collect();
    let h0 = s.init.hash();
    visited[h0 as usize % SHARDS].lock().unwrap().insert(h0);
    stats.states = 1;
    // initial state
    {
        let mut f = vec![];
        let mut ctx = Ctx::new(&s.init);
        match d.decode(&s.init) {
            Ok(a) => {
                d.invariants(&a, &mut f);
                if let Some(h) = v.hook {
                    h(d, &s.init, &a, &mut ctx, &mut f);
                    stats.hook_runs += 1;
                }
            }
            Err(e) => f.push((Asp::Tree, e)),
        }
        stats.merge(&ctx.stats);
        if let Some((asp, msg)) = f.into_iter().find(|(a, _)| v.asps.contains(a)) {
            return (stats, Some(Violation { path: vec![], asp, msg }));
        }
    }
    let mut levels: Vec<Vec<Node>> = vec![vec![Node { parent: 0, op: 0 }]];
    let mut frontier: Vec<Diff> = vec![diff(&s.init, &s.init)];
    stats.complete = true;
    for depth in 1..=lim.depth {
        let last = depth == lim.depth;
        let next = AtomicUsize::new(0);
        let stop = AtomicBool::new(false);
        let timeout = AtomicBool::new(false);
        let found: Mutex<Vec<(u32, u32, Asp, String)>> = Mutex::new(vec![]);
        let outs: Mutex<Vec<(u32, u32, Option<Diff>)>> = Mutex::new(vec![]);
        let acc: Mutex<Stats> = Mutex::new(Stats::default());
        let n_states = AtomicUsize::new(0);
        // few states and a wide alphabet: split the alphabet
        let chunks = if frontier.len() >= 512 { 1 } else { (s.alpha.len() / 32).max(1).min(64) };
        let per = (s.alpha.len() + chunks - 1) / chunks;
        std::thread::scope(|sc| {
            for _ in 0..lim.threads {
                sc.spawn(|| {
                    let mut ctx = Ctx::new(&s.init);
                    let mut f: Vec<Finding> = vec![];
                    let mut mine: Vec<(u32, u32, Option<Diff>)> = vec![];
                    let mut pre = s.init.clone();
                    let mut post = s.init.clone();
                    loop {
                        let w = next.fetch_add(1, Ordering::Relaxed);
                        let (i, ch) = (w / chunks, w % chunks);
                        if i >= frontier.len() || stop.load(Ordering::Relaxed) {
                            break;
                        }
                        if let Some(dl) = lim.deadline {
                            if i % 16 == 0 && Instant::now() > dl {
                                timeout.store(true, Ordering::Relaxed);
                                break;
                            }
                        }
                        undiff(&s.init, &frontier[i], &mut pre);
                        post.copy_from(&pre);
                        let pa = match d.decode(&pre) {
                            Ok(a) => a,
                            Err(_) => continue,
                        };
                        for (oi, op) in s.alpha.iter().enumerate().skip(ch * per).take(per) {
                            f.clear();
                            let (o, ki) = checked_step(d, &pre, &pa, &mut post, op, &mut f, &mut ctx.stats);
                            let (k, ix) = match ki {
                                Some(x) => x,
                                None => continue,
                            };
                            if !v.sees_kind(k.name()) {
                                f.clear();
                            }
                            if let StepOut::Moved(got) = o {
                                let h = post.hash();
                                let fresh = visited[h as usize % SHARDS].lock().unwrap().insert(h);
                                if fresh {
                                    n_states.fetch_add(1, Ordering::Relaxed);
                                    if let Some(g) = &got {
                                        d.invariants(g, &mut f);
                                        if !g.events.is_empty() {
                                            ctx.stats.nontrivial += 1;
                                        }
                                        if let Some(hk) = v.hook {
                                            hk(d, &post, g, &mut ctx, &mut f);
                                            ctx.stats.hook_runs += 1;
                                        }
                                    }
                                    let keep = !last && got.is_some();
                                    if keep {
                                        mine.push((i as u32, oi as u32, Some(diff(&s.init, &post))));
                                    }
                                }
                                d.w.restore(&pre, &mut post, &ix);
                                post.clock = pre.clock;
                            }
                            if let Some((asp, msg)) = f.drain(..).find(|(a, _)| v.asps.contains(a)) {
                                found.lock().unwrap().push((i as u32, oi as u32, asp, format!("[{}] {}", k.name(), msg)));
                                stop.store(true, Ordering::Relaxed);
                            }
                        }
                    }
                    acc.lock().unwrap().merge(&ctx.stats);
                    outs.lock().unwrap().append(&mut mine);
                });
            }
        });
        stats.merge(&acc.into_inner().unwrap());
        stats.states += n_states.load(Ordering::Relaxed) as u64;
        stats.leaves = n_states.load(Ordering::Relaxed) as u64;
        let mut fd = found.into_inner().unwrap();
        if !fd.is_empty() {
            fd.sort_by_key(|x| (x.0, x.1));
            let (p, o, asp, msg) = fd.swap_remove(0);
            let mut path = vec![o as usize];
            let mut cur = p;
            for l in levels.iter().rev() {
                if l.len() == 1 && l[0].parent == 0 && std::ptr::eq(l, &levels[0]) {
                    break;
                }
                let n = &l[cur as usize];
                path.push(n.op as usize);
                cur = n.parent;
            }
            path.reverse();
            return (stats, Some(Violation { path, asp, msg }));
        }
        if timeout.load(Ordering::Relaxed) {
            stats.complete = false;
            break;
        }
        stats.depth = depth;
        if last {
            break;
        }
        let mut o = outs.into_inner().unwrap();
        o.sort_by_key(|x| (x.0, x.1));
        let mut nodes = Vec::with_capacity(o.len());
        let mut fr = Vec::with_capacity(o.len());
        for (p, op, df) in o {
            nodes.push(Node { parent: p, op });
            fr.push(df.unwrap());
        }
        if fr.is_empty() {
            break;
        }
        levels.push(nodes);
        frontier = fr;
        if stats.states > lim.max_states {
            stats.complete = false;
            break;
        }
    }
    (stats, None)
}

/// Replays a path, printing every step and finding; returns the findings the view cares about.
pub fn replay(s: &Scn, v: &View, path: &[usize]) -> Vec<Finding> {
    let d = &s.dex;
    let mut pre = s.init.clone();
    let mut post = s.init.clone();
    let mut ctx = Ctx::new(&s.init);
    let mut all = vec![];
    for (n, &oi) in std::iter::once(&usize::MAX).chain(path.iter()).enumerate() {
        let mut f = vec![];
        if oi != usize::MAX {
            let pa = match d.decode(&pre) {
                Ok(a) => a,
                Err(e) => {
                    println!("  cannot decode: {}", e);
                    break;
                }
            };
            let (o, ki) = checked_step(d, &pre, &pa, &mut post, &s.alpha[oi], &mut f, &mut ctx.stats);
            let r = match &o {
                StepOut::Skip => "n/a",
                StepOut::Rejected => "refused",
                StepOut::Moved(_) => "accepted",
            };
            println!("  {}. {:?}: {}", n, s.alpha[oi], r);
            if let Some((k, _)) = ki {
                if !v.sees_kind(k.name()) {
                    f.clear();
                }
            }
        }
        if let Ok(g) = d.decode(&post) {
            d.invariants(&g, &mut f);
            if let Some(h) = v.hook {
                h(d, &post, &g, &mut ctx, &mut f);
            }
        }
        for (a, m) in f {
            if v.asps.contains(&a) {
                println!("     -> {:?}: {}", a, m);
                all.push((a, m));
            }
        }
        pre.copy_from(&post);
    }
    all
}

/// Findings made while scenario prefixes were being set up: (operation, kind, finding).
pub static PREFIX: Mutex<Vec<(String, &'static str, Finding)>> = Mutex::new(vec![]);

/// Runs the given operations as a scenario prefix; every one must be accepted. The steps are
/// judged like any other transition.
pub fn run_prefix(d: &Dex, st: &mut St, ops: &[Op]) -> Result<(), String> {
    let mut post = st.clone();
    let mut stats = Stats::default();
    for (n, op) in ops.iter().enumerate() {
        let a = d.decode(st)?;
        let mut f = vec![];
        let (o, ki) = checked_step(d, st, &a, &mut post, op, &mut f, &mut stats);
        let k = ki.ok_or(format!("setup operation {} not applicable: {:?}", n, op))?.0;
        let ok = match &o {
            StepOut::Moved(Some(g)) => {
                d.invariants(g, &mut f);
                true
            }
            _ => false,
        };
        if !ok && f.is_empty() {
            f.push((Asp::Result, "not accepted".into()));
        }
        let mut p = PREFIX.lock().unwrap();
        for x in f {
            p.push((format!("setup operation {} {:?}", n, op), k.name(), x));
        }
        if !ok {
            return Err(format!("setup operation {} {:?} not accepted", n, op));
        }
        st.copy_from(&post);
    }
    Ok(())
}
