//! Level-by-level exhaustive exploration of all operation sequences, every transition judged.
use crate::rt::*;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::Instant;

pub type Asp = &'static str;
pub type Finding = (Asp, String);

pub enum Make {
    Fixed(Ix),
    Dyn(Box<dyn Fn(&World, &St) -> Option<Ix> + Send + Sync>),
}
pub struct Op {
    pub label: String,
    pub kind: &'static str,
    pub make: Make,
}
pub fn op(kind: &'static str, label: impl Into<String>, ix: Ix) -> Op {
    Op { label: label.into(), kind, make: Make::Fixed(ix) }
}

pub type Judge = Box<dyn Fn(&World, &St, &Ix, &'static str, &Out, &St) -> Vec<Finding> + Send + Sync>;
pub struct Scn {
    pub name: String,
    pub w: World,
    pub init: St,
    pub ops: Vec<Op>,
    pub judge: Judge,
}

#[derive(Clone, Copy)]
pub struct View {
    pub kinds: &'static [&'static str], // empty: all
    pub asps: &'static [Asp],
}
impl View {
    pub fn sees(&self, k: &str, a: &str) -> bool {
        (self.kinds.is_empty() || self.kinds.contains(&k)) && self.asps.contains(&a)
    }
}

#[derive(Default)]
pub struct Stats {
    pub states: u64,
    pub transitions: u64,
    pub accepted: u64,
    pub leaves: u64,
    pub depth: usize,
    pub complete: bool,
    pub kinds: BTreeMap<&'static str, (u64, u64)>,
}

pub struct Violation {
    pub path: Vec<usize>,
    pub asp: Asp,
    pub kind: &'static str,
    pub msg: String,
}

struct Node {
    st: St,
    parent: u32,
    op: u16,
}

struct Succ {
    from: u32,
    op: u16,
    st: St,
    h: u128,
}

pub fn step(s: &Scn, st: &St, o: &Op) -> Option<(Out, St, Vec<Finding>)> {
    let ix = match &o.make {
        Make::Fixed(i) => i.clone(),
        Make::Dyn(f) => f(&s.w, st)?,
    };
    let (out, post) = s.w.exec(st, &ix);
    let f = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (s.judge)(&s.w, st, &ix, o.kind, &out, &post)))
        .unwrap_or_else(|_| vec![("result", format!("answered {:?} to an instruction that cannot be interpreted", out))]);
    Some((out, post, f))
}

pub fn explore(s: &Scn, v: &View, depth: usize, deadline: Instant, threads: usize, known: &dyn Fn(&str) -> bool) -> (Stats, Option<Violation>) {
    let mut stats = Stats { complete: true, depth, ..Stats::default() };
    for (asp, msg) in &s.w.broken {
        if v.asps.contains(asp) {
            let vi = Violation { path: vec![], asp, kind: "setup", msg: msg.clone() };
            if !known(&describe(s, &vi)) {
                return (stats, Some(vi));
            }
        }
    }
    let mut seen: HashSet<u128> = HashSet::new();
    let mut back: Vec<(u32, u16)> = vec![(0, u16::MAX)];
    seen.insert(s.init.hash());
    stats.states = 1;
    let mut front: Vec<(u32, Node)> = vec![(0, Node { st: s.init.clone(), parent: 0, op: u16::MAX })];
    for level in 0..depth {
        let next = AtomicUsize::new(0);
        let res: Mutex<Vec<(Vec<Succ>, Vec<(u32, u16, Finding, &'static str)>, BTreeMap<&'static str, (u64, u64)>, u64, u64)>> = Mutex::new(vec![]);
        let stop = AtomicUsize::new(0);
        let (fr, res2, next2, stop2, seen2) = (&front, &res, &next, &stop, &seen);
        let last = level + 1 == depth;
        std::thread::scope(|sc| {
            for _ in 0..threads {
                sc.spawn(move || {
                    let mut out = vec![];
                    let mut bad = vec![];
                    let mut kinds: BTreeMap<&'static str, (u64, u64)> = BTreeMap::new();
                    let (mut trans, mut leaves) = (0u64, 0u64);
                    let mut fresh: HashSet<u128> = HashSet::new();
                    loop {
                        let i = next2.fetch_add(1, Ordering::Relaxed);
                        if i >= fr.len() {
                            break;
                        }
                        if Instant::now() > deadline {
                            stop2.store(1, Ordering::Relaxed);
                            break;
                        }
                        let (id, n) = &fr[i];
                        for (oi, o) in s.ops.iter().enumerate() {
                            let (res, post, f) = match step(s, &n.st, o) {
                                Some(x) => x,
                                None => continue,
                            };
                            trans += 1;
                            let e = kinds.entry(o.kind).or_insert((0, 0));
                            if res.ok() {
                                e.0 += 1
                            } else {
                                e.1 += 1
                            }
                            if let Some(x) = f.into_iter().find(|x| v.sees(o.kind, x.0)) {
                                bad.push((*id, oi as u16, x, o.kind));
                                continue;
                            }
                            if last {
                                leaves += res.ok() as u64;
                            }
                            if res.ok() {
                                let h = post.hash();
                                if !seen2.contains(&h) && fresh.insert(h) {
                                    out.push(Succ { from: *id, op: oi as u16, st: post, h });
                                }
                            }
                        }
                    }
                    res2.lock().unwrap().push((out, bad, kinds, trans, leaves));
                });
            }
        });
        let mut all = vec![];
        let mut bads = vec![];
        for (o, b, k, t, l) in res.into_inner().unwrap() {
            all.extend(o);
            bads.extend(b);
            stats.transitions += t;
            stats.leaves += l;
            for (n, (a, r)) in k {
                let e = stats.kinds.entry(n).or_insert((0, 0));
                e.0 += a;
                e.1 += r;
            }
        }
        stats.accepted = stats.kinds.values().map(|x| x.0).sum();
        if stop.load(Ordering::Relaxed) != 0 {
            stats.complete = false;
        }
        bads.sort_by_key(|b| (b.0, b.1));
        for (from, o, (asp, msg), kind) in bads {
            let mut path = vec![o as usize];
            let mut at = from;
            while back[at as usize].1 != u16::MAX {
                path.push(back[at as usize].1 as usize);
                at = back[at as usize].0;
            }
            path.reverse();
            let vi = Violation { path, asp, kind, msg };
            if known(&describe(s, &vi)) {
                continue;
            }
            return (stats, Some(vi));
        }
        all.sort_by_key(|x| (x.from, x.op));
        let mut nf = vec![];
        let mut uniq: HashMap<u128, ()> = HashMap::new();
        for x in all {
            if seen.contains(&x.h) || uniq.insert(x.h, ()).is_some() {
                continue;
            }
            let id = back.len() as u32;
            back.push((x.from, x.op));
            nf.push((id, Node { st: x.st, parent: x.from, op: x.op }));
        }
        seen.extend(uniq.into_iter().map(|x| x.0));
        stats.states += nf.len() as u64;
        front = nf;
        if front.is_empty() || !stats.complete {
            break;
        }
    }
    let _ = front.first().map(|x| (x.1.parent, x.1.op));
    (stats, None)
}

pub fn describe(s: &Scn, v: &Violation) -> String {
    let mut b = format!("path={}\n{}: [{}] {}\n", v.path.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(","), v.asp, v.kind, v.msg);
    for (i, &o) in v.path.iter().enumerate() {
        b.push_str(&format!("step {}: {}\n", i + 1, s.ops[o].label));
    }
    b
}

/// runs a recorded path again and reports what the judge says at its end
pub fn replay(s: &Scn, v: &View, path: &[usize]) -> Vec<Finding> {
    let mut st = s.init.clone();
    let mut last: Vec<Finding> = if path.is_empty() { s.w.broken.clone() } else { vec![] };
    for &o in path {
        let op = &s.ops[o];
        match step(s, &st, op) {
            Some((out, post, f)) => {
                println!("{} -> {:?}", op.label, out);
                for x in &f {
                    println!("    {}: {}", x.0, x.1);
                }
                last = f.into_iter().filter(|x| v.sees(op.kind, x.0)).collect();
                st = post;
            }
            None => println!("{} not applicable", op.label),
        }
    }
    last
}
