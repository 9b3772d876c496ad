//! mccrank: exhaustive exploration of the off-chain client (crank) against a stand-in node that
//! executes the real programs.
//!   mccrank check <property> <quick|thorough>
//!   mccrank replay <file>
#![allow(dead_code)]
/// the client prints on standard output; reports go to a copy of it
macro_rules! say { ($($a:tt)*) => { crate::say_line(format!($($a)*)) } }
mod daemon;
mod misc;
mod node;
mod ops;
mod queue;
mod wire;
mod world;

use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::Mutex;
use std::time::{Duration, Instant};

extern "C" {
    fn dup(fd: i32) -> i32;
    fn dup2(a: i32, b: i32) -> i32;
}
static OUT: Mutex<Option<std::fs::File>> = Mutex::new(None);
fn hush() {
    use std::os::unix::io::{AsRawFd, FromRawFd};
    let null = std::fs::OpenOptions::new().write(true).open("/dev/null").unwrap();
    unsafe {
        let f = dup(1);
        dup2(null.as_raw_fd(), 1);
        *OUT.lock().unwrap() = Some(std::fs::File::from_raw_fd(f));
    }
}
pub fn say_line(s: String) {
    use std::io::Write;
    if let Some(f) = OUT.lock().unwrap().as_mut() {
        let _ = f.write_all(format!("{}\n", s).as_bytes());
    }
}

#[derive(Default)]
pub struct Out {
    pub states: u64,
    pub transitions: u64,
    pub traces: u64,
}
pub struct Report {
    pub out: Out,
    pub worlds: usize,
    pub notes: Vec<String>,
    pub samples: Vec<String>,
    pub bad: Option<String>,
    pub complete: bool,
    pub deadline: Instant,
    pub known: Vec<String>,
    pub hits: Vec<String>,
    pub threads: usize,
}
impl Report {
    pub fn note(&mut self, s: String) {
        say!("{}", s);
        self.notes.push(s);
    }
    /// runs f for 0..n on all cores; keeps the violation with the smallest index that is not a known finding
    pub fn par(&mut self, n: usize, f: impl Fn(usize, &mut Out) -> Option<String> + Sync) {
        if self.bad.is_some() {
            return;
        }
        let next = AtomicUsize::new(0);
        let stop = AtomicUsize::new(usize::MAX);
        let late = AtomicUsize::new(0);
        let res: Mutex<(Out, Vec<(usize, String)>)> = Mutex::new((Out::default(), vec![]));
        let (nx, sp, lt, rs, ff) = (&next, &stop, &late, &res, &f);
        let (deadline, known) = (self.deadline, &self.known);
        std::thread::scope(|s| {
            for _ in 0..self.threads {
                s.spawn(move || {
                    let mut o = Out::default();
                    let mut bad = vec![];
                    loop {
                        let i = nx.fetch_add(1, Ordering::Relaxed);
                        if i >= n || i > sp.load(Ordering::Relaxed) {
                            break;
                        }
                        if Instant::now() > deadline {
                            lt.store(1, Ordering::Relaxed);
                            break;
                        }
                        if let Some(m) = ff(i, &mut o) {
                            if !known.iter().any(|k| m.contains(k.as_str())) {
                                sp.fetch_min(i, Ordering::Relaxed);
                            }
                            bad.push((i, m));
                        }
                    }
                    let mut r = rs.lock().unwrap();
                    r.0.states += o.states;
                    r.0.transitions += o.transitions;
                    r.0.traces += o.traces;
                    r.1.extend(bad);
                });
            }
        });
        let (o, mut bad) = res.into_inner().unwrap();
        self.out.states += o.states;
        self.out.transitions += o.transitions;
        self.out.traces += o.traces;
        if late.load(Ordering::Relaxed) != 0 {
            self.complete = false;
        }
        bad.sort();
        for (_, m) in bad {
            match self.known.iter().find(|k| m.contains(k.as_str())) {
                Some(k) => {
                    if !self.hits.contains(k) {
                        self.hits.push(k.clone());
                    }
                }
                None => {
                    self.bad = Some(m);
                    break;
                }
            }
        }
    }
}

pub fn verif() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}
fn esc(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}
fn violation(id: &str, body: &str) {
    let dir = format!("{}/replays", verif());
    let _ = std::fs::create_dir_all(&dir);
    let p = format!("{}/{}.txt", dir, id);
    let _ = std::fs::write(&p, format!("property={}\n{}\n", id, body));
    say!("{}", body.trim_end());
    say!("VIOLATION property={} replay={}", id, p);
}
fn check(id: &str, thorough: bool) -> i32 {
    let t0 = Instant::now();
    let secs: u64 = std::env::var("MC_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(if thorough { 3 * 3600 } else { 600 });
    let known = std::fs::read_to_string(format!("{}/known-findings.txt", verif())).unwrap_or_default();
    let known = known.lines().filter_map(|l| l.strip_prefix("known: ")).filter_map(|l| l.strip_prefix(&format!("property={} match=", id))).map(|l| l.to_string()).collect();
    let mut r = Report {
        out: Out::default(),
        worlds: 0,
        notes: vec![],
        samples: vec![],
        bad: None,
        complete: true,
        deadline: t0 + Duration::from_secs(secs),
        known,
        hits: vec![],
        threads: std::thread::available_parallelism().map_or(4, |n| n.get()).min(16),
    };
    match id {
        "C01" => queue::check(thorough, &mut r),
        "C02" => ops::check_trading(thorough, &mut r),
        "C04" => daemon::check(thorough, &mut r),
        "C06" => misc::check_helpers(thorough, &mut r),
        "C07" => misc::check_cli(thorough, &mut r),
        "C05" => daemon::check_monitor(thorough, &mut r),
        "C03" => ops::check_tokens(thorough, &mut r),
        _ => {
            eprintln!("unknown property {}", id);
            return 2;
        }
    }
    let ev = format!(
        "{{\"property\":{},\"tier\":{},\"seed\":{},\"level\":\"model_checking\",\"coverage\":{{\"states\":{},\"transitions\":{},\"traces_validated_against_impl\":{},\"worlds\":{},\"exhaustive\":{},\"runs\":[{}],\"samples\":[{}]}},\"assumptions\":[\"the stand-in node executes transactions atomically with the real programs\",\"exhaustive within the listed spaces\"],\"wall_s\":{:.2},\"violations\":{}}}\n",
        esc(id),
        esc(if thorough { "thorough" } else { "quick" }),
        std::env::var("VERIF_SEED").ok().and_then(|s| s.parse::<u64>().ok()).unwrap_or(1),
        r.out.states,
        r.out.transitions,
        r.out.traces,
        r.worlds,
        r.complete,
        r.notes.iter().map(|n| esc(n)).collect::<Vec<_>>().join(","),
        r.samples.iter().map(|n| esc(n)).collect::<Vec<_>>().join(","),
        t0.elapsed().as_secs_f64(),
        r.bad.is_some() as u8
    );
    let _ = std::fs::create_dir_all(format!("{}/evidence", verif()));
    let _ = std::fs::write(format!("{}/evidence/{}.json", verif(), id), ev);
    for h in &r.hits {
        say!("KNOWN-FINDING: property={} {}", id, h);
    }
    match r.bad {
        Some(b) => {
            violation(id, &format!("thorough={}\n{}", thorough, b));
            1
        }
        None => {
            say!("{}: held on {} states, {} transitions{}", id, r.out.states, r.out.transitions, if r.complete { "" } else { " (stopped early)" });
            0
        }
    }
}
fn replay(file: &str) -> i32 {
    let s = match std::fs::read_to_string(file) {
        Ok(s) => s,
        Err(e) => {
            eprintln!("{}: {}", file, e);
            return 2;
        }
    };
    let get = |k: &str| s.lines().find_map(|l| l.strip_prefix(&format!("{}=", k))).unwrap_or("").to_string();
    // the whole check is deterministic: it reaches the same case again
    check(&get("property"), get("thorough") == "true")
}

fn main() {
    node::install();
    hush();
    let args: Vec<String> = std::env::args().collect();
    if std::env::var("MC_PANIC").is_err() {
        std::panic::set_hook(Box::new(|_| ()));
    }
    let rc = match args.get(1).map(|s| s.as_str()) {
        Some("check") if args.len() > 3 => check(&args[2], args[3] == "thorough"),
        Some("daemon") if args.len() > 3 => daemon::child(args[2].parse().unwrap(), args[3] == "thorough"),
        Some("monitor") if args.len() > 3 => daemon::monitor(args[3] == "thorough"),
        Some("replay") if args.len() > 2 => replay(&args[2]),
        _ => {
            eprintln!("usage: mccrank check <property> <quick|thorough> | replay <file>");
            2
        }
    };
    std::process::exit(rc);
}
