//! C04: the crank's loop, run as a daemon in a process of its own against every schedule of slots,
//! new events, waiting times and outcomes of its transactions. Time is virtual: the loop's sleeps
//! return at once and move the clock.
use crate::node::*;
use crate::ops::Keys;
use crate::wire::Http;
use crate::world::*;
use crate::Report;
use crank::{Command, Opts};
use serde_json::Value;
use serum_common::client::Cluster;
use serum_dex::instruction::MarketInstruction;
use serum_dex::matching::Side;
use solana_program::{pubkey::Pubkey, system_program};
use solana_sdk::{signature::Signer, transaction::Transaction};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, Mutex};

// ------------------------------------------------------------------ virtual time
#[repr(C)]
#[derive(Clone, Copy)]
pub struct Ts {
    sec: i64,
    nsec: i64,
}
extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
/// how far the monotonic clock is ahead of the kernel's, in seconds
static AHEAD: AtomicI64 = AtomicI64::new(1_000_000);
static JUMP: AtomicI64 = AtomicI64::new(0);
#[no_mangle]
pub extern "C" fn clock_gettime(id: i32, t: *mut Ts) -> i32 {
    unsafe {
        let r = syscall(228, id as i64, t) as i32;
        if r == 0 && id == 1 {
            (*t).sec += AHEAD.load(Ordering::SeqCst);
        }
        r
    }
}
fn nap(t: *const Ts) -> i32 {
    let t = unsafe { *t };
    if t.sec == 0 && t.nsec < 200_000_000 {
        return unsafe { syscall(35, &t as *const Ts, 0usize) as i32 };
    }
    // more time may pass than asked for; never while a request is under way
    AHEAD.fetch_add(t.sec.max(1) + JUMP.swap(0, Ordering::SeqCst), Ordering::SeqCst);
    0
}
#[no_mangle]
pub extern "C" fn nanosleep(t: *const Ts, _: *mut Ts) -> i32 {
    nap(t)
}
#[no_mangle]
pub extern "C" fn clock_nanosleep(id: i32, flags: i32, t: *const Ts, _: *mut Ts) -> i32 {
    if flags == 0 {
        return nap(t);
    }
    let mut now = Ts { sec: 0, nsec: 0 };
    clock_gettime(id, &mut now);
    let t = unsafe { *t };
    let d = (t.sec - now.sec) * 1_000_000_000 + t.nsec - now.nsec;
    if d > 0 {
        nap(&Ts { sec: d / 1_000_000_000, nsec: d % 1_000_000_000 });
    }
    0
}
fn now() -> f64 {
    let mut t = Ts { sec: 0, nsec: 0 };
    clock_gettime(1, &mut t);
    t.sec as f64 + t.nsec as f64 / 1e9
}

// ------------------------------------------------------------------ schedules
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Send {
    Ok,
    /// every transaction is refused
    Refuse,
    /// every transaction is taken, none lands
    Drop,
    /// the first one is refused
    First,
    /// the first one is taken but does not land
    FirstDrop,
}
#[derive(Clone, Copy, Debug)]
pub struct Step {
    /// how the slot moves before the queue is read
    pub slot: i64,
    /// events added before the queue is read
    pub add: usize,
    /// how much time passes before the queue is read, in seconds
    pub wait: u64,
    pub send: Send,
}
#[derive(Clone, Copy, Debug)]
pub struct Conf {
    pub workers: usize,
    pub per: usize,
    pub accounts: Option<usize>,
    pub maxq: Option<u64>,
    pub delay: Option<u64>,
    pub owners: usize,
    pub perm: bool,
    /// 0: few kinds of steps, 1: most, 2: all
    pub wide: u8,
    pub depth: usize,
}
pub fn confs(thorough: bool) -> Vec<Conf> {
    let d = |q, t| if thorough { t } else { q };
    let c = Conf { workers: 1, per: 2, accounts: Some(2), maxq: Some(3), delay: Some(60), owners: 4, perm: false, wide: 1, depth: d(2, 3) };
    vec![
        c,
        Conf { wide: 2, depth: d(1, 2), workers: 2, ..c },
        Conf { workers: 2, ..c },
        Conf { wide: 0, depth: d(4, 5), ..c },
        Conf { wide: 0, depth: d(4, 5), workers: 2, maxq: None, ..c },
        Conf { workers: 3, per: 1, ..c },
        Conf { maxq: None, accounts: None, per: 5, ..c },
        Conf { maxq: None, delay: None, accounts: Some(1), ..c },
        Conf { maxq: Some(1_000_000), delay: None, ..c },
        Conf { perm: true, ..c },
        Conf { delay: Some(200), ..c },
        Conf { delay: Some(0), maxq: Some(1_000_000), wide: 0, depth: d(3, 4), ..c },
        // numbers that do not fit into a byte, or into the request
        Conf { per: 256, wide: 0, ..c },
        Conf { per: 65_536, wide: 0, ..c },
        Conf { per: usize::MAX, maxq: Some(u64::MAX), delay: Some(60), workers: 300, wide: 0, ..c },
        // many owners: the transactions reach their largest size
        Conf { accounts: None, owners: 40, per: 30, workers: 1, maxq: None, depth: d(2, 2), ..c },
        Conf { accounts: Some(24), owners: 40, per: 100, workers: 2, maxq: None, depth: d(2, 2), ..c },
    ]
}
fn alphabet(c: &Conf) -> Vec<Step> {
    let mut v = vec![];
    let slots: &[i64] = if c.wide == 2 { &[0, 1, -1, 5] } else { &[0, 1] };
    let adds: Vec<usize> = if c.owners > 10 {
        vec![0, c.owners - 3, c.owners + 5]
    } else {
        [&[0usize, 3][..], &[0, 1, 3], &[0, 1, 2, 3, 7]][c.wide as usize].to_vec()
    };
    let sends: &[Send] = [&[Send::Ok, Send::Refuse][..], &[Send::Ok, Send::Refuse, Send::Drop, Send::First], &[Send::Ok, Send::Refuse, Send::Drop, Send::First, Send::FirstDrop]][c.wide as usize];
    let waits: &[u64] = match c.delay {
        _ if c.wide == 0 => &[0],
        None => &[0, 30, 100],
        Some(200) => &[0, 100, 300],
        _ => &[0, 100],
    };
    for &slot in slots {
        for &add in &adds {
            for &wait in waits {
                for &send in sends {
                    if c.workers == 1 && send == Send::First && c.wide < 2 {
                        continue;
                    }
                    v.push(Step { slot, add, wait, send });
                }
            }
        }
    }
    // the very first thing the daemon sees is an event
    let k = v.iter().position(|s| s.add == 1).unwrap_or(0);
    v.rotate_left(k);
    v
}

// ------------------------------------------------------------------ one daemon
struct Poll {
    slot: u64,
    elapsed: f64,
    chain: Chain,
    /// raw transactions, with what became of each (answered, landed)
    sent: Vec<(Vec<u8>, bool, bool)>,
    step: Step,
    ended: f64,
}
struct Env {
    w: World,
    c: Conf,
    base: Chain,
    abc: Vec<Step>,
    /// all sequences of steps, one after the other
    seq: usize,
    total: usize,
    at: usize,
    depth: usize,
    slot: u64,
    cur: Option<Poll>,
    history: Vec<Step>,
    // what the daemon has to remember
    done_slot: u64,
    last: f64,
    placed: u64,
    polls: u64,
    rounds: u64,
    txs: u64,
}
fn expected(w: &World, c: &Chain, accounts: usize, per: usize) -> usize {
    let p = w.pending(c);
    let mut owners: Vec<Pubkey> = vec![];
    for (n, k) in p.iter().enumerate() {
        if n == per {
            return n;
        }
        if !owners.contains(k) {
            if owners.len() == accounts {
                return n;
            }
            owners.push(*k);
        }
    }
    p.len()
}
impl Env {
    fn judge(&mut self) -> Result<(), String> {
        let p = match self.cur.take() {
            None => return Ok(()),
            Some(p) => p,
        };
        let w = &self.w;
        let len = w.pending(&p.chain).len();
        let delay = self.c.delay.unwrap_or(60) as f64;
        let maxq = self.c.maxq.unwrap_or(1);
        if p.sent.is_empty() && p.slot <= self.done_slot {
            return Ok(());
        }
        let due = len > 0 && (len as u64 >= maxq || p.elapsed >= delay);
        let vague = delay > 0.0 && (p.elapsed - delay).abs() < 12.0 && (len as u64) < maxq && len > 0 && p.slot > self.done_slot;
        let must = due && p.slot > self.done_slot;
        if !vague && must && p.sent.is_empty() {
            return Err(format!("{} events are pending at slot {} (last sent for: {}), {:.0} s after the last attempt, and nothing was sent", len, p.slot, self.done_slot, p.elapsed));
        }
        if !vague && !must && !p.sent.is_empty() {
            return Err(format!("{} transactions were sent although none was due: {} events pending at slot {} (last sent for: {}), {:.0} s after the last attempt", p.sent.len(), len, p.slot, self.done_slot, p.elapsed));
        }
        if p.sent.is_empty() {
            return Ok(());
        }
        self.rounds += 1;
        self.txs += p.sent.len() as u64;
        self.last = p.ended;
        if p.sent.len() > self.c.workers {
            return Err(format!("{} transactions for {} workers", p.sent.len(), self.c.workers));
        }
        if p.sent.iter().any(|s| s.1) {
            self.done_slot = self.done_slot.max(p.slot);
        }
        let accounts = self.c.accounts.unwrap_or(24);
        for (raw, _, _) in &p.sent {
            if raw.len() > PACKET {
                return Err(format!("{} events of {} owners: a transaction of {} bytes does not fit", len, self.c.owners, raw.len()));
            }
            let tx: Transaction = bincode::deserialize(raw).map_err(|_| "not a transaction")?;
            tx.verify().map_err(|_| "not signed")?;
            if tx.message.account_keys[0] != w.payer.pubkey() {
                return Err("paid by another".into());
            }
            let ixs = Chain::decode(&tx).map_err(|e| e.to_string())?;
            // on the queue as it was read, the transaction has to do its part
            let mut c = p.chain.clone();
            c.all(&ixs).map_err(|e| format!("the transaction is refused: {:?}", e))?;
            let mut want = p.chain.clone();
            let n = match self.c.accounts {
                Some(_) => expected(w, &p.chain, accounts, self.c.per),
                // left to the daemon: any number that makes progress
                None => {
                    let n = len - w.pending(&c).len().min(len);
                    if n == 0 || n > self.c.per {
                        return Err(format!("the transaction consumes {} of {} events", n, len));
                    }
                    n
                }
            };
            want.all(&[w.r_consume(&p.chain, n as u16)]).map_err(|e| format!("{:?}", e))?;
            if want.accs != c.accs {
                return Err(format!("the transaction consumes {} of {} events, not {}, or does something else: {}", len - w.pending(&c).len().min(len), len, n, crate::ops::diff(&want, &c)));
            }
            for i in &ixs {
                if i.prog == w.dex {
                    let oo = i.accs.iter().filter(|a| w.oo.contains(&a.0)).count();
                    if oo > accounts {
                        return Err(format!("{} orders accounts instead of {}", oo, accounts));
                    }
                    match MarketInstruction::unpack(&i.data) {
                        Some(MarketInstruction::ConsumeEvents(_)) => (),
                        _ => return Err("another instruction than consuming events".into()),
                    }
                } else if i.prog != system_program::ID {
                    return Err("another program is called".into());
                }
            }
        }
        Ok(())
    }
    fn next(&mut self, n: &mut Node) -> Result<(), String> {
        let r = self.judge();
        if let Err(e) = r {
            let h: Vec<String> = self.history.iter().map(|s| format!("then {:?}", s)).collect();
            return Err(format!("{:?}\nsequence={}\n{}\n{}", self.c, self.seq, h.join("\n"), e));
        }
        if self.at == self.depth {
            self.seq += 1;
            self.at = 0;
        }
        if self.seq == self.total {
            return Err(String::new());
        }
        if self.at == 0 {
            // from the beginning: an empty queue, long after the last attempt, at a new slot
            self.history.clear();
            self.slot = self.slot.max(self.done_slot) + 10;
            n.chain = self.base.clone();
            let q = *self.w.m.event_q;
            let mut a = (*n.chain.accs[&q]).clone();
            let lead = [0u64, 127, 126, 125, 60][self.seq % 5];
            a.data[13..21].copy_from_slice(&lead.to_le_bytes());
            n.chain.accs.insert(q, Arc::new(a));
            self.placed = 0;
            n.status.clear();
            n.sent.clear();
            n.log.clear();
        }
        let mut x = self.seq;
        for _ in 0..self.at {
            x /= self.abc.len();
        }
        let s = self.abc[x % self.abc.len()];
        self.history.push(s);
        self.at += 1;
        self.polls += 1;
        self.slot = (self.slot as i64 + s.slot) as u64;
        for _ in 0..s.add {
            let u = (self.placed as usize * 3 + self.placed as usize / 7) % self.c.owners;
            let mut o = order(Side::Bid, 1, 1, self.placed + 1);
            o.max_native_pc_qty_including_fees = nz(100 + self.placed % 3);
            let i = self.w.r_place(&self.w.oo[u], &self.w.users[u].pubkey(), &self.w.pc[u], &o);
            // a full queue takes no more
            if n.chain.all(&[i]).is_err() {
                break;
            }
            self.placed += 1;
        }
        // how long until the queue is read again
        let later = if self.at == self.depth {
            1000
        } else {
            self.abc[x / self.abc.len() % self.abc.len()].wait as i64
        };
        JUMP.store(later, Ordering::SeqCst);
        n.slot = self.slot;
        self.cur = Some(Poll { slot: self.slot, elapsed: now() - self.last, chain: n.chain.clone(), sent: vec![], step: s, ended: 0.0 });
        Ok(())
    }
}

fn finish(bad: Option<String>, e: &Env) -> ! {
    match bad {
        Some(b) => say!("BAD\n{}", b),
        None => say!("FINE {} {} {} {}", e.total, e.polls, e.rounds, e.txs),
    }
    std::process::exit(0)
}

/// child process: `mccrank daemon <index> <tier>`
pub fn child(ix: usize, thorough: bool) -> i32 {
    let keys = Keys::new();
    let c = confs(thorough)[ix];
    let w = World::new(Opt { users: c.owners, events: 128, perm: c.perm, ..Opt::default() });
    let mut base = w.init.clone();
    for u in 0..c.owners {
        w.fresh_oo(&mut base, u);
        let mut i = w.r_init_oo(&w.oo[u], &w.users[u].pubkey());
        if c.perm {
            i.accs.push((w.auth, true, false));
        }
        base.all(&[i]).expect("init oo");
    }
    let abc = alphabet(&c);
    let total = abc.len().pow(c.depth as u32);
    let (dex, market, cw, pw) = (w.dex, *w.m.market, w.coin[0], w.pc[0]);
    let payer = keys.file(&w.payer);
    let evq = *w.m.event_q;
    let env = Arc::new(Mutex::new(Env { base: base.clone(), depth: c.depth, abc, seq: 0, total, at: 0, slot: 100, cur: None, history: vec![], done_slot: 0, last: now() - 5000.0, placed: 0, polls: 0, rounds: 0, txs: 0, w, c }));
    let e2 = env.clone();
    let dir = keys.dir.clone();
    let mut node = Node::new(base);
    node.hook = Some(Box::new(move |n: &mut Node, m: &str, p: &Value| {
        let mut e = e2.lock().unwrap();
        if m == "getAccountInfo" && key_param(p, 0) == Some(evq) {
            if let Err(b) = e.next(n) {
                let _ = std::fs::remove_dir_all(&dir);
                finish(if b.is_empty() { None } else { Some(b) }, &e);
            }
        }
        if m == "sendTransaction" {
            let raw = raw_param(p)?;
            let big = raw.len() > PACKET;
            if let Some(poll) = e.cur.as_mut() {
                poll.ended = now();
                let first = poll.sent.is_empty();
                let (ans, land) = match poll.step.send {
                    Send::Ok => (true, true),
                    Send::Refuse => (false, false),
                    Send::Drop => (true, false),
                    Send::First => (!first, !first),
                    Send::FirstDrop => (true, !first),
                };
                let (ans, land) = (ans && !big, land && !big);
                let tx: Option<Transaction> = bincode::deserialize(&raw).ok();
                poll.sent.push((raw, ans, land));
                if !ans {
                    return Some(Answer::Err(-32005, "node is behind".into()));
                }
                if !land {
                    let sig = tx.and_then(|t| t.signatures.get(0).cloned()).unwrap_or_default();
                    return Some(Answer::Ok(serde_json::json!(sig.to_string())));
                }
            }
        }
        None
    }));
    let http = Http::start(node);
    // a daemon that no longer reads the queue
    let (e3, d3) = (env.clone(), keys.dir.clone());
    std::thread::spawn(move || {
        let mut seen = (0, 0);
        loop {
            std::thread::sleep(std::time::Duration::from_millis(100));
            if let Ok(e) = e3.try_lock() {
                seen = if seen.0 == e.polls { (e.polls, seen.1 + 1) } else { (e.polls, 0) };
                if seen.1 > 1800 {
                    let _ = std::fs::remove_dir_all(&d3);
                    let h: Vec<String> = e.history.iter().map(|s| format!("then {:?}", s)).collect();
                    finish(Some(format!("{:?}\nsequence={}\n{}\nthe daemon does not read the queue any more", e.c, e.seq, h.join("\n"))), &e);
                }
            }
        }
    });
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        crank::start(Opts {
            cluster: Cluster::Custom(http.url.clone()),
            command: Command::ConsumeEvents {
                dex_program_id: dex,
                payer,
                market,
                coin_wallet: cw,
                pc_wallet: pw,
                num_workers: c.workers,
                events_per_worker: c.per,
                num_accounts: c.accounts,
                log_directory: format!("{}/log/crank", keys.dir),
                max_q_length: c.maxq,
                max_wait_for_events_delay: c.delay,
            },
        })
    }));
    let e = env.lock().unwrap();
    let how = match r {
        Err(_) => "panicked".to_string(),
        Ok(Err(e)) => format!("gave up: {:#}", e),
        Ok(Ok(())) => "ended".to_string(),
    };
    let _ = std::fs::remove_dir_all(&keys.dir);
    let h: Vec<String> = e.history.iter().map(|s| format!("then {:?}", s)).collect();
    finish(Some(format!("{:?}\nsequence={}\n{}\nthe daemon {}", e.c, e.seq, h.join("\n"), how)), &e);
}

/// child process: `mccrank monitor 0 <tier>`: the reported length against every fill and position of the ring
pub fn monitor(thorough: bool) -> i32 {
    use std::io::{Read, Write};
    let w = World::new(Opt { users: 2, events: 128, ..Opt::default() });
    let mut base = w.init.clone();
    for u in 0..2 {
        w.fresh_oo(&mut base, u);
    }
    let http = Http::start(Node::new(base.clone()));
    let port = std::net::TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap().port();
    let (dex, market, url) = (w.dex, *w.m.market, http.url.clone());
    std::thread::spawn(move || {
        let _ = crank::start(Opts { cluster: Cluster::Custom(url), command: Command::MonitorQueue { dex_program_id: dex, market, port } });
    });
    let ask = || -> Option<String> {
        let mut s = std::net::TcpStream::connect(("127.0.0.1", port)).ok()?;
        s.write_all(b"GET /length HTTP/1.1\r\nHost: localhost\r\nConnection: close\r\n\r\n").ok()?;
        let mut b = String::new();
        s.read_to_string(&mut b).ok()?;
        Some(b)
    };
    let mut up = None;
    for _ in 0..400 {
        up = ask();
        if up.is_some() {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(50));
    }
    if up.is_none() {
        say!("BAD\nthe monitor does not answer");
        return 0;
    }
    let q = *w.m.event_q;
    let mut n = 0;
    let leads: Vec<u64> = if thorough { (0..128).collect() } else { vec![0, 1, 63, 126, 127] };
    for lead in leads {
        let mut c = base.clone();
        let mut a = (*c.accs[&q]).clone();
        a.data[13..21].copy_from_slice(&lead.to_le_bytes());
        c.accs.insert(q, Arc::new(a));
        for k in 0..=128u64 {
            if k > 0 {
                let mut o = order(Side::Bid, 1, 1, k);
                o.max_native_pc_qty_including_fees = nz(100);
                let u = (k % 2) as usize;
                if c.all(&[w.r_place(&w.oo[u], &w.users[u].pubkey(), &w.pc[u], &o)]).is_err() {
                    break;
                }
            }
            let want = w.pending(&c).len();
            {
                // what has been settled for good lags behind
                let mut n = http.node.lock().unwrap();
                n.old = Some(n.chain.accs.clone());
                n.chain = c.clone();
            }
            let b = ask().unwrap_or_default();
            let body = b.split("\r\n\r\n").nth(1).unwrap_or("").to_string();
            let got = serde_json::from_str::<Value>(&body).ok().and_then(|v| v["length"].as_u64());
            if got != Some(want as u64) {
                say!("BAD\n{} events pending from position {} on: the monitor says {:?}", want, lead, b.lines().next().unwrap_or("").to_string() + " " + &body);
                return 0;
            }
            n += 1;
        }
    }
    // a queue as large as the client makes them; only the header is written
    let big = crate::queue::BIG as u64;
    let w = World::new(Opt { users: 2, events: big as usize, ..Opt::default() });
    for lead in vec![0, 1, 255, 256, 4_096, 8_191, big - 1] {
        for k in vec![0, 1, 127, 128, 255, 256, 257, 1_000, 4_095, 4_096, 4_097, 8_192, 10_000, big - 1, big] {
            let mut c = w.init.clone();
            let mut a = (*c.accs[&q]).clone();
            a.data[13..21].copy_from_slice(&(lead as u64).to_le_bytes());
            a.data[21..29].copy_from_slice(&(k as u64).to_le_bytes());
            c.accs.insert(q, Arc::new(a));
            {
                let mut n = http.node.lock().unwrap();
                n.old = Some(n.chain.accs.clone());
                n.chain = c;
            }
            let b = ask().unwrap_or_default();
            let body = b.split("\r\n\r\n").nth(1).unwrap_or("").to_string();
            let got = serde_json::from_str::<Value>(&body).ok().and_then(|v| v["length"].as_u64());
            if got != Some(k) {
                say!("BAD\n{} events pending from position {} of a ring of {} on: the monitor says {:?}", k, lead, big, b.lines().next().unwrap_or("").to_string() + " " + &body);
                return 0;
            }
            n += 1;
        }
    }
    say!("FINE {} {} 0 0", n, n);
    0
}

fn run_child(kind: &str, i: usize, thorough: bool, o: &mut crate::Out) -> Result<Vec<u64>, String> {
    let me = std::env::current_exe().unwrap();
    let tier = if thorough { "thorough" } else { "quick" };
    let mut cmd = std::process::Command::new(&me);
    let x = cmd.args(&[kind, &i.to_string(), tier]).stdin(std::process::Stdio::null()).stderr(std::process::Stdio::null()).output();
    let out = match x {
        Ok(x) => String::from_utf8_lossy(&x.stdout).to_string(),
        Err(e) => return Err(format!("cannot start: {}", e)),
    };
    if let Some(f) = out.lines().find_map(|l| l.strip_prefix("FINE ")) {
        let v: Vec<u64> = f.split_whitespace().filter_map(|x| x.parse().ok()).collect();
        o.states += v[1];
        o.transitions += v[1] + v[3];
        o.traces += v[0];
        return Ok(v);
    }
    let b = out.splitn(2, "BAD\n").nth(1).unwrap_or("the process ended without an answer").to_string();
    Err(b.trim_end().to_string())
}
pub fn check(thorough: bool, r: &mut Report) {
    let cs = confs(thorough);
    let notes: Mutex<Vec<(usize, String)>> = Mutex::new(vec![]);
    let (nt, cf) = (&notes, &cs);
    r.par(cs.len(), |i, o| match run_child("daemon", i, thorough, o) {
        Err(b) => Some(b),
        Ok(v) => {
            nt.lock().unwrap().push((i, format!("{:?}: {} schedules, {} readings of the queue, {} rounds, {} transactions", cf[i], v[0], v[1], v[2], v[3])));
            None
        }
    });
    r.worlds += cs.len();
    let mut v = notes.into_inner().unwrap();
    v.sort();
    for (_, n) in v {
        r.note(n);
    }
    r.samples.push(format!("{:?}", &alphabet(&cs[0])[..2]));
}
pub fn check_monitor(thorough: bool, r: &mut Report) {
    r.par(1, |_, o| run_child("monitor", 0, thorough, o).err());
    r.worlds += 1;
    r.note(format!("every fill (0 to 128 events) of a 128-event ring and 15 fills of a 11915-event ring, from {}", if thorough { "every position" } else { "positions 0, 1, 63, 126, 127" }));
    r.samples.push("128 events from position 127 on".into());
}
