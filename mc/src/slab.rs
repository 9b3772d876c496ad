//! The order book storage as an ordered map: every sequence of operations over small key sets,
//! explored to a fixpoint (or to the stated depth) on the real data structure.
use crate::abs::walk_slab;
use crate::world::Hasher2;
use crate::Special;
use serum_dex::critbit::{LeafNode, Slab, SlabView};
use std::collections::{BTreeMap, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

#[derive(Clone, Copy, Debug)]
enum Op {
    Insert(usize, u8), // key, payload
    Remove(usize),
    Min,
    Max,
}

type Model = BTreeMap<u128, [u8; 72]>;

fn leaf(key: u128, v: u8) -> [u8; 72] {
    let mut b = [0u8; 72];
    b[0] = 2;
    b[4] = (key as u8).wrapping_mul(3) ^ v;
    b[5] = v % 7;
    b[8..24].copy_from_slice(&key.to_le_bytes());
    for i in 24..56 {
        b[i] = (i as u8).wrapping_add(key as u8).wrapping_add((key >> 120) as u8) ^ v;
    }
    b[56..64].copy_from_slice(&((key as u64 ^ (key >> 64) as u64) | 1).wrapping_add(v as u64).to_le_bytes());
    b[64..72].copy_from_slice(&(key as u64).wrapping_mul(7).wrapping_add(v as u64).to_le_bytes());
    b
}

fn as_leaf(b: &[u8; 72]) -> LeafNode {
    *bytemuck::from_bytes(&b[..])
}
fn bytes(l: &LeafNode) -> [u8; 72] {
    let mut b = [0u8; 72];
    b.copy_from_slice(bytemuck::bytes_of(l));
    b
}

/// contents by raw bytes
fn contents(buf: &[u8]) -> Result<Model, String> {
    let mut m = Model::new();
    for h in walk_slab("slab", buf)? {
        let mut b = [0u8; 72];
        b.copy_from_slice(&buf[32 + h * 72..32 + h * 72 + 72]);
        let mut k = [0u8; 16];
        k.copy_from_slice(&b[8..24]);
        m.insert(u128::from_le_bytes(k), b);
    }
    Ok(m)
}

/// one operation on the real slab, compared with the map
fn step(buf: &mut [u8], model: &mut Model, keys: &[u128], cap: usize, op: Op) -> Result<(), String> {
    let s = Slab::new(buf);
    match op {
        Op::Insert(k, v) => {
            let l = leaf(keys[k], v);
            let room = model.contains_key(&keys[k]) || 2 * (model.len() + 1) - 1 <= cap;
            match s.insert_leaf(&as_leaf(&l)) {
                Ok((h, old)) => {
                    if !room {
                        return Err("accepted a leaf beyond its capacity".into());
                    }
                    if old.map(|o| bytes(&o)) != model.get(&keys[k]).copied() {
                        return Err("insert reports a wrong previous leaf".into());
                    }
                    let n = s.get(h).and_then(|n| n.as_leaf().map(bytes));
                    if n != Some(l) {
                        return Err("the handle returned by insert does not name the new leaf".into());
                    }
                    model.insert(keys[k], l);
                }
                Err(_) => {
                    if room {
                        return Err("refused a leaf although there is room".into());
                    }
                }
            }
        }
        Op::Remove(k) => {
            let r = s.remove_by_key(keys[k]).map(|l| bytes(&l));
            if r != model.remove(&keys[k]) {
                return Err("remove returned the wrong leaf".into());
            }
        }
        Op::Min => {
            let k = model.keys().next().copied();
            let want = k.and_then(|k| model.remove(&k));
            if s.remove_min().map(|l| bytes(&l)) != want {
                return Err("remove_min did not remove the smallest leaf".into());
            }
        }
        Op::Max => {
            let k = model.keys().next_back().copied();
            let want = k.and_then(|k| model.remove(&k));
            if s.remove_max().map(|l| bytes(&l)) != want {
                return Err("remove_max did not remove the largest leaf".into());
            }
        }
    }
    let get = |h: Option<u32>| h.and_then(|h| s.get(h).and_then(|n| n.as_leaf().map(bytes)));
    if get(s.find_min()) != model.values().next().copied() {
        return Err("find_min is not the smallest leaf".into());
    }
    if get(s.find_max()) != model.values().next_back().copied() {
        return Err("find_max is not the largest leaf".into());
    }
    if s.is_empty() != model.is_empty() || s.capacity() != cap as u64 {
        return Err("is_empty / capacity wrong".into());
    }
    let c = contents(buf)?;
    if &c != model {
        return Err(format!("contents {:x?} expected {:x?}", c.keys().collect::<Vec<_>>(), model.keys().collect::<Vec<_>>()));
    }
    Ok(())
}

fn explore(name: &str, keys: &[u128], cap: usize, depth: usize, max: usize, deadline: Instant, out: &mut Special) -> Result<(), String> {
    let mut ops = vec![Op::Min, Op::Max];
    for k in 0..keys.len() {
        ops.push(Op::Insert(k, 0));
        ops.push(Op::Remove(k));
    }
    ops.push(Op::Insert(0, 1));
    let size = 32 + 72 * cap;
    let zero = vec![0u64; size / 8 + 1];
    let mut seen: HashSet<u128> = HashSet::new();
    let h = |b: &[u8]| {
        let mut h = Hasher2::new();
        h.bytes(b);
        h.fin()
    };
    let first: Vec<u8> = bytemuck::cast_slice::<u64, u8>(&zero)[..size].to_vec();
    seen.insert(h(&first));
    let mut frontier: Vec<(Vec<u8>, Vec<u8>)> = vec![(first, vec![])];
    let mut work = vec![0u64; size / 8 + 1];
    out.states += 1;
    let mut fix = false;
    for _d in 0..depth {
        let mut next = vec![];
        for (st, path) in &frontier {
            let model0 = contents(st)?;
            for (oi, &op) in ops.iter().enumerate() {
                let w: &mut [u8] = &mut bytemuck::cast_slice_mut::<u64, u8>(&mut work)[..size];
                w.copy_from_slice(st);
                let mut model = model0.clone();
                crate::world::quiet(true);
                let r = catch_unwind(AssertUnwindSafe(|| step(w, &mut model, keys, cap, op)));
                crate::world::quiet(false);
                out.transitions += 1;
                let r = match r {
                    Ok(r) => r,
                    Err(_) => Err("panicked".into()),
                };
                if let Err(e) = r {
                    let p: Vec<String> = path.iter().map(|&o| format!("{:?}", ops[o as usize])).chain(std::iter::once(format!("{:?}", op))).collect();
                    return Err(format!("{} keys {:x?} capacity {} nodes: {} after {}", name, keys, cap, e, p.join(", ")));
                }
                if seen.insert(h(w)) {
                    out.states += 1;
                    let mut p = path.clone();
                    p.push(oi as u8);
                    next.push((w.to_vec(), p));
                }
            }
        }
        if next.is_empty() {
            fix = true;
            break;
        }
        frontier = next;
        if Instant::now() > deadline || seen.len() > max {
            out.exhaustive = false;
            break;
        }
    }
    out.leaves += frontier.len() as u64;
    out.samples.push(format!(
        "{}: {} keys, {} nodes, {} states, {}; e.g. {}",
        name,
        keys.len(),
        cap,
        seen.len(),
        if fix { "fixpoint reached".to_string() } else { format!("depth {}", depth) },
        frontier.last().map_or(String::new(), |f| f.1.iter().map(|&o| format!("{:?}", ops[o as usize])).collect::<Vec<_>>().join(", "))
    ));
    Ok(())
}

pub fn run(thorough: bool, deadline: Instant) -> Special {
    let mut out = Special { name: "order book storage".into(), states: 0, transitions: 0, leaves: 0, samples: vec![], exhaustive: true, violation: None };
    let p = |price: u64, seq: u64| ((price as u128) << 64) | seq as u128;
    let sets: Vec<(&str, Vec<u128>)> = vec![
        ("extremes", vec![0, 1, u128::MAX, u128::MAX - 1, 1 << 127]),
        ("word boundary", vec![p(1, 0), p(0, u64::MAX), p(1, 1), p(2, 0), p(1, 1 << 63)]),
        ("order ids", vec![p(7, 3), p(7, 4), p(8, !5), p(8, !6), p(1 << 40, 1)]),
        ("chain", vec![1 << 127, 1 << 126, 1 << 125, 1 << 1, 1]),
        ("close", vec![8, 9, 10, 11, 12]),
        ("deep prefix", vec![u128::MAX ^ 1, u128::MAX ^ 2, u128::MAX ^ 4, u128::MAX ^ 3, u128::MAX]),
    ];
    let caps: &[(usize, usize)] = if thorough { &[(1, 60), (2, 60), (3, 60), (4, 60), (5, 60), (6, 60), (7, 60), (8, 60), (9, 60)] } else { &[(1, 60), (3, 60), (4, 60), (5, 60), (6, 40), (7, 9), (9, 8)] };
    let max = if thorough { 3_000_000 } else { 400_000 };
    let jobs: Vec<(&str, Vec<u128>, usize, usize)> = sets.iter().flat_map(|(n, k)| caps.iter().map(move |&(c, d)| (*n, k.clone(), c, d))).collect();
    let next = std::sync::atomic::AtomicUsize::new(0);
    let acc = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        for _ in 0..8 {
            s.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= jobs.len() {
                    break;
                }
                // the largest jobs are at the end of each set: take them first
                let (n, k, c, d) = &jobs[jobs.len() - 1 - i];
                let mut o = Special { name: String::new(), states: 0, transitions: 0, leaves: 0, samples: vec![], exhaustive: true, violation: None };
                if let Err(e) = explore(n, k, *c, *d, max, deadline, &mut o) {
                    o.violation = Some(e);
                }
                acc.lock().unwrap().push((i, o));
            });
        }
    });
    let mut v = acc.into_inner().unwrap();
    v.sort_by_key(|x| x.0);
    for (_, o) in v {
        out.states += o.states;
        out.transitions += o.transitions;
        out.leaves += o.leaves;
        out.exhaustive &= o.exhaustive;
        if out.samples.len() < 60 {
            out.samples.extend(o.samples);
        }
        if out.violation.is_none() {
            out.violation = o.violation;
        }
    }
    out
}
