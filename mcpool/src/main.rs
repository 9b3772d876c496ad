//! mcpool: exhaustive exploration of the pools, the permissioned-market proxy and assert-owner.
//!   mcpool check <property> <quick|thorough>
//!   mcpool replay <file>
//!   mcpool run <depth> <scenario>...   (development)
mod codec;
mod custom;
mod explore;
mod mw;
mod owner;
mod pinit;
mod pool;
mod proxy;
mod pscen;
mod rt;

use explore::*;
use std::cell::RefCell;
use std::time::{Duration, Instant};

/// (scenario, quick depth, thorough depth)
type Runs = &'static [(&'static str, usize, usize)];
struct Prop {
    id: &'static str,
    parts: Vec<(View, Runs)>,
}

const PROXY: &[&str] = &["result", "state", "delegate", "theft"];

fn table() -> Vec<Prop> {
    let v = |kinds, asps| View { kinds, asps };
    vec![
        Prop {
            id: "L01",
            parts: vec![(
                v(&["create", "redeem", "swap", "give"], &["result", "value", "tokens"]),
                &[("pool", 4, 5), ("pool:skew", 4, 5), ("pool:one", 5, 6), ("pool:admin", 4, 5), ("pool:three", 4, 5), ("pool:five", 4, 5), ("grid", 1, 2), ("empty", 2, 3), ("init", 3, 3)],
            )],
        },
        Prop { id: "L02", parts: vec![(v(&["create", "redeem"], &["result", "fees", "tokens", "value"]), &[("fees", 1, 1), ("pool", 4, 5), ("pool:skew", 4, 5), ("pool:one", 5, 6), ("pool:admin", 4, 5), ("pool:three", 4, 5), ("init", 3, 3)])] },
        Prop { id: "L03", parts: vec![(v(&[], &["result", "tokens", "fees", "state", "value", "quote"]), &[("auth", 1, 1), ("auth:admin", 1, 1), ("auth:params", 1, 1), ("auth:three", 1, 1), ("auth2", 1, 1)])] },
        Prop {
            id: "L04",
            parts: vec![(v(&["admin", "create", "redeem", "quote"], &["result", "state", "delegate", "tokens", "fees", "quote"]), &[("admin", 7, 9), ("admin:wide", 5, 6), ("auth:admin", 1, 1)])],
        },
        Prop { id: "L05", parts: vec![(v(&[], &["result", "state", "tokens", "fees", "quote", "value"]), &[("init", 4, 5), ("init:admin", 4, 5), ("init:pairs", 1, 1), ("init:pairs:admin", 1, 1), ("custom:init", 2, 3)])] },
        Prop { id: "L06", parts: vec![(v(&[], &["quote"]), &[("pool", 4, 5), ("pool:skew", 4, 5), ("pool:one", 4, 5), ("pool:admin", 4, 5), ("pool:three", 4, 5), ("pool:five", 4, 5), ("custom", 3, 3), ("grid", 1, 1), ("empty", 2, 2), ("admin", 6, 7), ("auth", 1, 1), ("auth:params", 1, 1), ("fees", 1, 1)]), (v(&["quote"], &["result", "quote", "tokens", "state", "fees"]), &[("pool", 2, 2), ("grid", 1, 1), ("auth", 1, 1), ("auth:admin", 1, 1), ("empty", 1, 2)])] },
        Prop { id: "L07", parts: vec![(v(&[], &["result", "state", "tokens", "fees", "quote", "value", "context"]), &[("custom", 3, 4), ("custom:foreign", 1, 2), ("custom:init", 2, 3)])] },
        Prop { id: "L08", parts: vec![(v(&[], &["format"]), &[("codec:state", 1, 1), ("codec:request", 1, 1)]), (v(&[], &["result", "state", "tokens", "quote"]), &[("auth", 1, 1), ("init", 2, 3), ("custom:foreign", 1, 2)])] },
        Prop { id: "A01", parts: vec![(v(&[], &["result", "state"]), &[("owner", 1, 1)])] },
        Prop { id: "X01", parts: vec![(v(&[], PROXY), &[("proxy:auth", 1, 1), ("proxy:auth2", 1, 1), ("proxy:init", 1, 1), ("proxy", 9, 11), ("proxy:rich", 6, 7), ("proxy:lots", 6, 7), ("proxy:crank", 8, 10)])] },
        Prop { id: "X02", parts: vec![(v(&[], PROXY), &[("proxy:wire", 1, 2), ("proxy", 9, 11), ("proxy:rich", 6, 7), ("proxy:lots", 6, 7), ("proxy:crank", 8, 10), ("proxy:init", 1, 1), ("proxy:auth", 1, 1)])] },
        Prop { id: "X03", parts: vec![(v(&["settle"], PROXY), &[("proxy:auth", 1, 1), ("proxy:auth2", 1, 1), ("proxy", 8, 11), ("proxy:rich", 5, 7), ("proxy:wire", 1, 1)])] },
        Prop { id: "X04", parts: vec![(v(&[], &["result", "state", "order"]), &[("mw:one", 1, 1), ("mw:readonly", 1, 1), ("mw:two", 1, 1), ("mw:three", 1, 1)])] },
    ]
}

fn scenarios(name: &str, thorough: bool) -> Vec<Scn> {
    match name {
        "owner" => owner::scenario(),
        "init" => pinit::scenario(false),
        "init:pairs" => pinit::pairs(false),
        "init:pairs:admin" => pinit::pairs(true),
        "init:admin" => pinit::scenario(true),
        _ if name.starts_with("codec") => codec::scenario(name, thorough),
        _ if name.starts_with("custom") => custom::scenario(name),
        _ if name.starts_with("mw") => mw::scenario(name),
        _ if name.starts_with("proxy") => proxy::scenario(name, thorough).unwrap_or_else(|| panic!("no scenario {}", name)),
        _ => pscen::scenario(name, thorough).unwrap_or_else(|| panic!("no scenario {}", name)),
    }
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}
fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
/// lines "known: property=<id> match=<text>" of known-findings.txt
fn known_of(id: &str) -> Vec<String> {
    let s = std::fs::read_to_string(format!("{}/known-findings.txt", verif())).unwrap_or_default();
    s.lines().filter_map(|l| l.strip_prefix("known: ")).filter_map(|l| l.strip_prefix(&format!("property={} match=", id))).map(|l| l.to_string()).collect()
}
fn violation(id: &str, body: &str) {
    let dir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{}/{}.txt", dir, id);
    let _ = std::fs::write(&p, body);
    println!("{}", body.trim_end());
    println!("VIOLATION property={} replay={}", id, p);
}

fn check(id: &str, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let secs: u64 = std::env::var("MC_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 3 * 3600 } else { 600 });
    let deadline = t0 + Duration::from_secs(secs);
    let prop = match table().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let idw = id.to_string();
    rt::watch::start(60, move |ix| {
        violation(&idw, &format!("property={}\nan instruction did not terminate within 60 s: {:?}", idw, ix));
        std::process::exit(1);
    });
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    let known = known_of(id);
    let hits: RefCell<Vec<String>> = RefCell::new(vec![]);
    let (mut states, mut trans, mut leaves, mut accepted, mut complete) = (0u64, 0u64, 0u64, 0u64, true);
    let mut runs = vec![];
    let mut samples = vec![];
    let mut bad: Option<String> = None;
    'all: for (pi, (view, rs)) in prop.parts.iter().enumerate() {
        for &(name, dq, dt) in rs.iter() {
            let depth = if thorough { dt } else { dq };
            let t = Instant::now();
            let scs = scenarios(name, thorough);
            let n = scs.len();
            let (mut st, mut tr, mut done) = (0, 0, true);
            let mut kinds: std::collections::BTreeMap<&str, (u64, u64)> = Default::default();
            for (si, s) in scs.iter().enumerate() {
                let see = |b: &str| {
                    if let Some(k) = known.iter().find(|k| b.contains(k.as_str())) {
                        let mut h = hits.borrow_mut();
                        if !h.contains(k) {
                            h.push(k.clone());
                        }
                        return true;
                    }
                    false
                };
                let (x, vi) = explore(s, view, depth, deadline, threads, &see);
                st += x.states;
                tr += x.transitions;
                leaves += x.leaves;
                accepted += x.accepted;
                done &= x.complete;
                for (k, (a, r)) in &x.kinds {
                    let e = kinds.entry(k).or_insert((0, 0));
                    e.0 += a;
                    e.1 += r;
                }
                if let Some(v) = vi {
                    bad = Some(format!("property={}\npart={}\nscenario={}\nindex={}\nthorough={}\nworld={}\n{}", id, pi, name, si, thorough, s.name, describe(s, &v)));
                    states += st;
                    trans += tr;
                    break 'all;
                }
                if si == n / 2 && samples.len() < 12 {
                    if let Some(t) = sample(s, depth) {
                        samples.push(esc(&format!("{}: {}", s.name, t)));
                    }
                }
            }
            states += st;
            trans += tr;
            complete &= done;
            println!("{}: {} world(s), depth {}: {} states, {} transitions{} in {:.1} s", name, n, depth, st, tr, if done { "" } else { " (stopped early)" }, t.elapsed().as_secs_f64());
            let ks: Vec<String> = kinds.iter().map(|(k, (a, r))| format!("{}:{{\"accepted\":{},\"refused\":{}}}", esc(k), a, r)).collect();
            runs.push(format!("{{\"scenario\":{},\"worlds\":{},\"depth\":{},\"states\":{},\"transitions\":{},\"complete\":{},\"instructions\":{{{}}}}}", esc(name), n, depth, st, tr, done, ks.join(",")));
        }
    }
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"accepted_transitions\":{},\"exhaustive\":{},\"runs\":{},\"samples\":{}}},\"assumptions\":{},\"wall_s\":{:.2},\"violations\":{}}}\n",
        esc(id),
        esc(if thorough { "thorough" } else { "quick" }),
        std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(0),
        states,
        trans,
        leaves,
        accepted,
        complete,
        list(&runs),
        list(&samples),
        list(&[
            esc("bounds: the operation alphabets and depths listed under runs; within them every sequence is explored"),
            esc("every transition executes the real program code natively, release arithmetic, with the real token program (and order book) behind a stand-in for the runtime"),
            esc("every transition is compared with the reference specification; traces_validated_against_impl counts the maximal accepted traces"),
        ]),
        t0.elapsed().as_secs_f64(),
        bad.is_some() as u8
    );
    let dir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, id), ev) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    for k in hits.borrow().iter() {
        println!("KNOWN-FINDING: property={} {}", id, k);
    }
    if let Some(b) = bad {
        violation(id, &b);
        return 1;
    }
    println!("{}: held on {} states, {} transitions", id, states, trans);
    0
}

/// one accepted trace, written out
fn sample(s: &Scn, depth: usize) -> Option<String> {
    let mut st = s.init.clone();
    let mut out = vec![];
    let n = s.ops.len();
    let mut at = 0;
    for _ in 0..depth {
        let mut hit = false;
        for j in 0..n.min(2_000) {
            let o = &s.ops[(at + j) % n];
            if let Some((r, p, _)) = step(s, &st, o) {
                if r.ok() && p != st {
                    out.push(o.label.clone());
                    st = p;
                    at = (at + j + 3) % n;
                    hit = true;
                    break;
                }
            }
        }
        if !hit {
            break;
        }
    }
    if out.is_empty() {
        None
    } else {
        Some(out.join("; "))
    }
}

fn do_replay(f: &str) -> i32 {
    let txt = std::fs::read_to_string(f).expect("replay file");
    let get = |k: &str| txt.lines().find_map(|l| l.strip_prefix(k).and_then(|x| x.strip_prefix('=')).map(|x| x.to_string())).expect("field");
    println!("{}", txt);
    let prop = table().into_iter().find(|p| p.id == get("property")).expect("property");
    let view = prop.parts[get("part").parse::<usize>().unwrap()].0;
    let scs = scenarios(&get("scenario"), get("thorough") == "true");
    let s = &scs[get("index").parse::<usize>().unwrap()];
    let path: Vec<usize> = get("path").split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
    let r = explore::replay(s, &view, &path);
    println!("{} finding(s)", r.len());
    !r.is_empty() as i32
}

fn main() {
    rt::install();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.iter().map(|x| x.as_str()).collect::<Vec<_>>().as_slice() {
        ["check", id, tier] => check(id, *tier == "thorough"),
        ["replay", f] => do_replay(f),
        ["list"] => {
            for p in table() {
                println!("{}", p.id);
            }
            0
        }
        _ => {
            eprintln!("usage: mcpool check <property> <quick|thorough> | replay <file> | list");
            2
        }
    };
    std::process::exit(code);
}
