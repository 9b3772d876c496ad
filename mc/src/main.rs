//! mc: exhaustive exploration of the serum-dex program against a reference specification.
//!   mc check <property> <quick|thorough>
//!   mc replay <file>
//!   mc run <depth> <scenario>...      (all aspects, for development)
//!   mc list
mod abs;
mod auth;
mod explore;
mod hooks;
mod init;
mod props;
mod scen;
mod setup;
mod slab;
mod spec;
mod wire;
mod world;
use abs::*;
use explore::*;
use props::*;
use std::time::{Duration, Instant};

/// Outcome of a dedicated enumeration.
pub struct Special {
    pub name: String,
    pub states: u64,
    pub transitions: u64,
    pub leaves: u64,
    pub samples: Vec<String>,
    pub exhaustive: bool,
    /// description of the failing case
    pub violation: Option<String>,
}

fn esc(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}
fn list(v: &[String]) -> String {
    format!("[{}]", v.join(","))
}

fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

/// Findings that are known and recorded: lines "property=<id> match=<text>" of known-findings.txt
fn known(id: &str) -> Vec<String> {
    let p = format!("{}/known-findings.txt", verif());
    let s = std::fs::read_to_string(p).unwrap_or_default();
    s.lines()
        .filter_map(|l| l.strip_prefix("known: "))
        .filter_map(|l| l.strip_prefix(&format!("property={} match=", id)))
        .map(|l| l.to_string())
        .collect()
}

fn write_replay(id: &str, body: &str) -> String {
    let dir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{}/{}.txt", dir, id);
    let _ = std::fs::write(&p, body);
    p
}

fn violation(id: &str, body: &str) {
    let p = write_replay(id, body);
    println!("{}", body.trim_end());
    println!("VIOLATION property={} replay={}", id, p);
}

fn check(id: &str, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let secs: u64 = std::env::var("MC_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 3 * 3600 } else { 600 });
    let deadline = t0 + Duration::from_secs(secs);
    let prop = match table().into_iter().find(|p| p.id == id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    };
    let idw = id.to_string();
    world::watch::start(60, move |ix| {
        violation(&idw, &format!("property={}\nan instruction did not terminate within 60 s: data {:02x?} accounts {:?} signers {:?}", idw, ix.data, ix.accs, ix.signers));
        std::process::exit(1);
    });
    let known = known(id);
    let mut known_hit: Vec<String> = vec![];
    let mut total = Stats::default();
    let mut samples: Vec<String> = vec![];
    let mut runs: Vec<String> = vec![];
    let mut complete = true;
    let mut bad: Option<String> = None;
    let mut setup_failed = 0;
    let threads = std::thread::available_parallelism().map_or(4, |n| n.get()).min(16);
    'parts: for (pi, part) in prop.parts.iter().enumerate() {
        match part {
            How::Special(f) => {
                let s = f(thorough, deadline);
                total.states += s.states;
                total.transitions += s.transitions;
                total.leaves += s.leaves;
                complete &= s.exhaustive;
                println!("{}: {} states, {} transitions{}", s.name, s.states, s.transitions, if s.exhaustive { "" } else { " (stopped early)" });
                runs.push(format!("{{\"scenario\":{},\"states\":{},\"transitions\":{},\"complete\":{}}}", esc(&s.name), s.states, s.transitions, s.exhaustive));
                samples.extend(s.samples.iter().map(|x| esc(x)));
                if let Some(v) = s.violation {
                    if let Some(k) = known.iter().find(|k| v.contains(k.as_str())) {
                        known_hit.push(k.clone());
                        continue;
                    }
                    bad = Some(format!("property={}\nscenario={}\n{}\n", id, s.name, v));
                    break 'parts;
                }
            }
            How::Seq { kinds, asps, hook, runs: rs } => {
                let v = View { kinds, asps, hook: *hook };
                for &(name, dq, dt) in rs.iter() {
                    let depth = if thorough { dt } else { dq };
                    PREFIX.lock().unwrap().clear();
                    let t = Instant::now();
                    let sc = scen::scenario(name, thorough);
                    let pf = std::mem::take(&mut *PREFIX.lock().unwrap());
                    if let Some((op, k, (a, m))) = pf.into_iter().find(|(_, k, (a, _))| asps.contains(a) && v.sees_kind(k)) {
                        bad = Some(format!("property={}\npart={}\nscenario={}\nthorough={}\npath=setup\n{:?}: [{}] {} at {}\n", id, pi, name, thorough, a, k, m, op));
                        break 'parts;
                    }
                    let s = match sc {
                        Ok(s) => s,
                        Err(e) => {
                            println!("{}: could not be set up: {}", name, e);
                            setup_failed += 1;
                            complete = false;
                            continue;
                        }
                    };
                    let (st, vi) = explore(&s, &v, &Limits { depth, max_states: if thorough { 60_000_000 } else { 20_000_000 }, deadline: Some(deadline), threads });
                    complete &= st.complete;
                    println!(
                        "{}: depth {} alphabet {}: {} states, {} transitions{} in {:.1} s",
                        name,
                        st.depth,
                        s.alpha.len(),
                        st.states,
                        st.transitions,
                        if st.complete { "" } else { " (stopped early)" },
                        t.elapsed().as_secs_f64()
                    );
                    let ks: Vec<String> = st.kinds.iter().map(|(k, (a, r))| format!("{}:{{\"accepted\":{},\"refused\":{}}}", esc(k), a, r)).collect();
                    runs.push(format!(
                        "{{\"scenario\":{},\"depth\":{},\"alphabet\":{},\"states\":{},\"transitions\":{},\"complete\":{},\"instructions\":{{{}}}}}",
                        esc(name),
                        st.depth,
                        s.alpha.len(),
                        st.states,
                        st.transitions,
                        st.complete,
                        ks.join(",")
                    ));
                    if samples.len() < 12 {
                        if let Some(t) = sample(&s, depth) {
                            samples.push(esc(&format!("{}: {}", name, t)));
                        }
                    }
                    total.merge(&st);
                    if let Some(x) = vi {
                        let mut body = format!("property={}\npart={}\nscenario={}\nthorough={}\npath={}\n{:?}: {}\n", id, pi, name, thorough, x.path.iter().map(|p| p.to_string()).collect::<Vec<_>>().join(","), x.asp, x.msg);
                        for (i, &o) in x.path.iter().enumerate() {
                            body.push_str(&format!("step {}: {:?}\n", i + 1, s.alpha[o]));
                        }
                        if let Some(k) = known.iter().find(|k| body.contains(k.as_str())) {
                            known_hit.push(k.clone());
                            continue;
                        }
                        bad = Some(body);
                        break 'parts;
                    }
                }
            }
        }
    }
    let nruns = runs.len();
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"exhaustive\":{},\"states_with_undelivered_events\":{},\"state_checks\":{},\"runs\":{},\"samples\":{}}},\"assumptions\":{},\"wall_s\":{:.2},\"violations\":{}}}\n",
        esc(id),
        esc(if thorough { "thorough" } else { "quick" }),
        std::env::var("VERIF_SEED").ok().and_then(|x| x.parse::<i64>().ok()).unwrap_or(0),
        total.states,
        total.transitions,
        total.leaves,
        complete,
        total.nontrivial,
        total.hook_runs,
        list(&runs),
        list(&samples),
        list(&[
            esc("bounds: the operation alphabets and depths listed under runs; within them every sequence is explored"),
            esc("every transition executes the real program code natively, release arithmetic, with the real token program behind a stand-in for the runtime"),
            esc("states are compared with the reference specification after every transition; traces_validated_against_impl counts the maximal traces"),
        ]),
        t0.elapsed().as_secs_f64(),
        bad.is_some() as u8
    );
    let dir = format!("{}/evidence", verif());
    let _ = std::fs::create_dir_all(&dir);
    if let Err(e) = std::fs::write(format!("{}/{}.json", dir, id), ev) {
        eprintln!("cannot write evidence: {}", e);
        return 2;
    }
    known_hit.sort();
    known_hit.dedup();
    for k in known_hit {
        println!("KNOWN-FINDING: property={} {}", id, k);
    }
    if let Some(b) = bad {
        violation(id, &b);
        return 1;
    }
    if nruns == 0 || setup_failed > nruns {
        eprintln!("the scenarios of this property could not be set up");
        return 2;
    }
    println!("{}: held on {} states, {} transitions", id, total.states, total.transitions);
    0
}

/// one accepted trace of the scenario, written out
fn sample(s: &Scn, depth: usize) -> Option<String> {
    let d = &s.dex;
    let mut pre = s.init.clone();
    let mut post = s.init.clone();
    let mut st = Stats::default();
    let mut out = vec![];
    let n = s.alpha.len();
    let mut at = 0;
    for step in 0..depth {
        let a = d.decode(&pre).ok()?;
        let mut hit = false;
        for j in 0..n.min(400) {
            let op = &s.alpha[(at + j * (if n > 400 { n / 400 } else { 1 })) % n];
            let mut f = vec![];
            if let (StepOut::Moved(_), _) = checked_step(d, &pre, &a, &mut post, op, &mut f, &mut st) {
                out.push(format!("{:?}", op));
                pre.copy_from(&post);
                at = (at + j + 1 + step * 7) % n;
                hit = true;
                break;
            }
        }
        if !hit {
            break;
        }
    }
    Some(out.join("; "))
}

fn do_replay(file: &str) -> i32 {
    let txt = std::fs::read_to_string(file).expect("replay file");
    let get = |k: &str| txt.lines().find_map(|l| l.strip_prefix(k).and_then(|x| x.strip_prefix('=')).map(|x| x.to_string()));
    println!("{}", txt);
    let id = get("property").expect("property");
    let prop = table().into_iter().find(|p| p.id == id).expect("property");
    let pi: usize = match get("part") {
        Some(p) => p.parse().unwrap(),
        None => {
            println!("(an enumerated case: run the check again to reproduce it)");
            return check(&id, false);
        }
    };
    let thorough = get("thorough").map_or(false, |x| x == "true");
    if let How::Seq { kinds, asps, hook, .. } = &prop.parts[pi] {
        let v = View { kinds, asps, hook: *hook };
        let name = get("scenario").unwrap();
        let s = match scen::scenario(&name, thorough) {
            Ok(s) => s,
            Err(e) => {
                println!("setup fails: {}", e);
                return 1;
            }
        };
        let p = get("path").unwrap();
        if p == "setup" {
            let f = PREFIX.lock().unwrap();
            let hit: Vec<_> = f.iter().filter(|(_, k, (a, _))| asps.contains(a) && v.sees_kind(k)).collect();
            println!("{:?}", hit);
            return !hit.is_empty() as i32;
        }
        let path: Vec<usize> = p.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect();
        let f = replay(&s, &v, &path);
        println!("{} finding(s)", f.len());
        return !f.is_empty() as i32;
    }
    2
}

fn dev_run(args: &[String]) {
    use Asp::*;
    let v = View {
        kinds: &[],
        asps: &[
            Result, Fills, Book, Events, Ledger, Rebate, Slots, Tokens, Lamports, Deposits, Fees, Config, Seq, Foreign, Solvent, Claims, Locked, SlotMap, Tree, Uncrossed, RebateSum, Exit, Crank,
        ],
        hook: match std::env::var("HK").as_deref() {
            Ok("exit") => Some(hooks::exit),
            Ok("crank") => Some(hooks::crank),
            _ => None,
        },
    };
    let depth = args[0].parse().unwrap();
    for n in &args[1..] {
        let s = match scen::scenario(n, false) {
            Ok(s) => s,
            Err(e) => {
                println!("{} {} {:?}", n, e, PREFIX.lock().unwrap());
                continue;
            }
        };
        println!("prefix findings: {:?}", PREFIX.lock().unwrap());
        let t = Instant::now();
        let (st, vi) = explore(&s, &v, &Limits { depth, max_states: 1 << 40, deadline: None, threads: 8 });
        println!("{} alpha {} : {} states {} transitions {:?} {:?}", n, s.alpha.len(), st.states, st.transitions, t.elapsed(), st.kinds);
        if let Some(x) = vi {
            println!("{:?} {} {:?}", x.asp, x.msg, x.path);
            replay(&s, &v, &x.path);
        }
    }
}

fn main() {
    world::install();
    let a: Vec<String> = std::env::args().skip(1).collect();
    let code = match a.iter().map(|x| x.as_str()).collect::<Vec<_>>().as_slice() {
        ["check", id, tier] => check(id, *tier == "thorough"),
        ["replay", f] => do_replay(f),
        ["list"] => {
            for p in table() {
                println!("{}", p.id);
            }
            0
        }
        ["run", ..] => {
            dev_run(&a[1..]);
            0
        }
        _ => {
            eprintln!("usage: mc check <property> <quick|thorough> | replay <file> | list | run <depth> <scenario>...");
            2
        }
    };
    std::process::exit(code);
}
