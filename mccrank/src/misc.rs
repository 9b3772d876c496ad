//! C06: the token helpers for programs (serum_common::program); C07: the command line.
use crate::node::CALLER;
use crate::world::*;
use crate::{Out, Report};
use clap::Parser;
use crank::{Command, Opts};
use serum_common::client::Cluster;
use solana_program::{account_info::AccountInfo, instruction::AccountMeta, program_option::COption, program_pack::Pack, pubkey::Pubkey};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

// ------------------------------------------------------------------ C06
#[derive(Clone)]
struct Acc {
    name: &'static str,
    key: Pubkey,
    owner: Pubkey,
    data: Vec<u8>,
    signer: bool,
    writable: bool,
    exec: bool,
}
struct Led {
    accs: Vec<Acc>,
    me: Pubkey,
}
fn tok(mint: &Pubkey, owner: &Pubkey, amount: u64, delegate: Option<(Pubkey, u64)>, frozen: bool) -> Vec<u8> {
    let mut d = vec![0; 165];
    let mut t = spl_token::state::Account::default();
    t.mint = *mint;
    t.owner = *owner;
    t.amount = amount;
    if let Some((k, n)) = delegate {
        t.delegate = COption::Some(k);
        t.delegated_amount = n;
    }
    t.state = if frozen { spl_token::state::AccountState::Frozen } else { spl_token::state::AccountState::Initialized };
    spl_token::state::Account::pack(t, &mut d).unwrap();
    d
}
const SEED: &[u8] = b"vault";
fn ledger() -> Led {
    let k = |n: u8| Pubkey::new(&[n; 32]);
    let me = k(200);
    let bump = (0u8..=255).find(|b| Pubkey::create_program_address(&[SEED, &[*b]], &me).is_ok()).unwrap();
    let pda = Pubkey::create_program_address(&[SEED, &[bump]], &me).unwrap();
    let (user, other) = (k(1), k(2));
    let t = spl_token::ID;
    let s = solana_program::system_program::ID;
    let (ma, mb, mc) = (k(10), k(11), k(12));
    let a = |name, key, owner, data: Vec<u8>| Acc { name, key, owner, data, signer: false, writable: true, exec: false };
    let mut accs = vec![
        a("mintA", ma, t, mint_data(&user, 0, 40)),
        a("mintB", mb, t, mint_data(&pda, 0, u64::MAX - 5)),
        a("mintC", mc, t, {
            let mut d = vec![0; spl_token::state::Mint::LEN];
            let m = spl_token::state::Mint { is_initialized: true, supply: 10, ..Default::default() };
            spl_token::state::Mint::pack(m, &mut d).unwrap();
            d
        }),
        a("userA", k(20), t, tok(&ma, &user, 10, None, false)),
        a("otherA", k(21), t, tok(&ma, &other, 10, Some((user, 4)), false)),
        a("pdaA", k(22), t, tok(&ma, &pda, 10, None, false)),
        a("userB", k(23), t, tok(&mb, &user, 7, Some((pda, 3)), false)),
        a("pdaB", k(24), t, tok(&mb, &pda, 9, None, false)),
        a("frozenA", k(25), t, tok(&ma, &user, 10, None, true)),
        a("emptyC", k(26), t, tok(&mc, &pda, 10, None, false)),
        a("user", user, s, vec![]),
        a("other", other, s, vec![]),
        a("pda", pda, s, vec![]),
        a("token", t, s, vec![]),
        a("self", me, s, vec![]),
    ];
    for x in &mut accs {
        if x.name == "user" {
            x.signer = true;
        }
        if x.name == "token" || x.name == "self" {
            x.writable = false;
            x.exec = true;
        }
    }
    let mut l = Led { accs, me };
    l.accs.push(Acc { name: "bump", key: Pubkey::default(), owner: s, data: vec![bump], signer: false, writable: false, exec: false });
    l
}
type Datas = Vec<Vec<u8>>;
/// runs f with account infos over `l`, gives the data left behind
fn with(l: &Led, f: impl FnOnce(&[AccountInfo]) -> Result<(), u64>) -> (Result<(), u64>, Datas) {
    let mut lam: Vec<u64> = l.accs.iter().map(|_| 5_000_000).collect();
    let mut data: Datas = l.accs.iter().map(|a| a.data.clone()).collect();
    let r = {
        let infos: Vec<AccountInfo> = l.accs.iter().zip(lam.iter_mut()).zip(data.iter_mut()).map(|((a, n), d)| AccountInfo::new(&a.key, a.signer, a.writable, n, d, &a.owner, a.exec, 0)).collect();
        CALLER.with(|c| *c.borrow_mut() = l.me);
        match catch_unwind(AssertUnwindSafe(|| f(&infos))) {
            Ok(r) => r,
            Err(_) => Err(u64::MAX),
        }
    };
    if r.is_err() {
        // the runtime undoes a failed instruction
        return (r, l.accs.iter().map(|a| a.data.clone()).collect());
    }
    (r, data)
}
#[derive(Clone, Copy, PartialEq, Debug)]
enum Seeds {
    None,
    Right,
    Wrong,
    Two,
}
/// what the token program does when asked with the rights the caller has
fn reference(l: &Led, op: usize, x: usize, y: usize, auth: usize, prog: usize, seeds: Seeds, amount: u64) -> (Result<(), u64>, Datas) {
    let pda = l.accs.iter().position(|a| a.name == "pda").unwrap();
    let ok = l.accs[prog].key == spl_token::ID && l.accs[x].writable && l.accs[y].writable && (l.accs[auth].signer || (auth == pda && (seeds == Seeds::Right || seeds == Seeds::Two)));
    with(l, |i| {
        if !ok {
            return Err(0);
        }
        let mut data = vec![[3u8, 7, 8][op]];
        data.extend_from_slice(&amount.to_le_bytes());
        let mut a = i[auth].clone();
        a.is_signer = true;
        // an account given twice has its rights everywhere
        let d = |n: usize| {
            let mut v = i[n].clone();
            v.is_signer = v.is_signer || n == auth;
            v
        };
        spl_token::processor::Processor::process(&spl_token::ID, &[d(x), d(y), a], &data).map_err(|e| e.into())
    })
}
fn real(l: &Led, op: usize, x: usize, y: usize, auth: usize, prog: usize, seeds: Seeds, amount: u64) -> (Result<(), u64>, Datas) {
    use serum_common::program::*;
    let bump = [l.accs.iter().find(|a| a.name == "bump").unwrap().data[0]];
    let right: &[&[u8]] = &[SEED, &bump];
    let wrong: &[&[u8]] = &[b"other", &bump];
    let s: Vec<&[&[u8]]> = match seeds {
        Seeds::None => vec![],
        Seeds::Right => vec![right],
        Seeds::Wrong => vec![wrong],
        Seeds::Two => vec![wrong, right],
    };
    with(l, |i| {
        let f = [invoke_token_transfer, invoke_mint_tokens, invoke_burn_tokens][op];
        f(&i[x], &i[y], &i[auth], &i[prog], &s, amount).map_err(|e| e.into())
    })
}
pub fn check_helpers(thorough: bool, r: &mut Report) {
    let l = ledger();
    let pos = |n: &str| l.accs.iter().position(|a| a.name == n).unwrap();
    let n = pos("bump");
    let amounts: Vec<u64> = if thorough { vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 1 << 32, u64::MAX - 1, u64::MAX] } else { vec![0, 1, 3, 4, 5, 7, 9, 10, 11, u64::MAX] };
    let names = ["transfer", "mint", "burn"];
    let mut accepted = 0u64;
    let acc = std::sync::atomic::AtomicU64::new(0);
    r.par(3 * n * n, |i, o: &mut Out| {
        let (op, x, y) = (i / (n * n), i / n % n, i % n);
        for ro in 0..3 {
            // which of the first two accounts the caller may not write
            let mut l = ledger();
            if ro == 1 {
                l.accs[x].writable = false;
            }
            if ro == 2 {
                l.accs[y].writable = false;
            }
            for auth in 0..n {
                for prog in &[pos("token"), pos("self"), pos("other")] {
                    for seeds in &[Seeds::None, Seeds::Right, Seeds::Wrong, Seeds::Two] {
                        for signs in 0..2 {
                            let u = pos("user");
                            l.accs[u].signer = signs == 1;
                            for &amount in &amounts {
                                o.states += 1;
                                o.transitions += 2;
                                o.traces += 1;
                                let want = reference(&l, op, x, y, auth, *prog, *seeds, amount);
                                let got = real(&l, op, x, y, auth, *prog, *seeds, amount);
                                if want.0.is_ok() {
                                    acc.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                                }
                                if want.0.is_ok() != got.0.is_ok() || want.1 != got.1 {
                                    let nm = |k: usize| l.accs[k].name;
                                    return Some(format!(
                                        "{} of {} with accounts {} and {}, authority {}, program {}, seeds {:?}, user signs: {}, not writable: {}\ntoken program asked directly: {:?}\nhelper: {:?}\naccounts equal: {}",
                                        names[op], amount, nm(x), nm(y), nm(auth), nm(*prog), seeds, signs == 1, ["neither", "first", "second"][ro], want.0, got.0, want.1 == got.1
                                    ));
                                }
                            }
                        }
                    }
                }
            }
        }
        None
    });
    accepted += acc.into_inner();
    r.worlds = 1;
    r.note(format!("helpers: {} requests over {} accounts, {} of them carried out", r.out.states, n, accepted));
    if accepted == 0 && r.bad.is_none() {
        r.bad = Some("no request was carried out".into());
    }
}

// ------------------------------------------------------------------ C07
/// one parameter of a command
struct Par {
    long: Option<&'static str>,
    short: Option<char>,
    need: bool,
    good: Vec<String>,
    bad: Vec<String>,
}
type Make = Box<dyn Fn(&[Option<String>]) -> Command + Sync>;
struct Cmd {
    name: &'static str,
    pars: Vec<Par>,
    make: Make,
}
fn pk(n: u8) -> Pubkey {
    Pubkey::new(&[n; 32])
}
fn commands() -> Vec<Cmd> {
    let badkey = || vec!["".to_string(), "x".to_string(), pk(7).to_string()[1..].to_string() + "0", format!("{}1", pk(255))];
    // an address
    let key = |long, short, need, n: u8| Par { long, short, need, good: vec![pk(n).to_string(), pk(n + 100).to_string(), Pubkey::default().to_string()], bad: badkey() };
    let text = |long, short, need, t: &str| Par { long, short, need, good: vec![t.to_string(), format!("/a b/{}", t), "mint".into(), "7".into()], bad: vec![] };
    let num = |long, short, need, n: u64, max: u128| Par { long, short, need, good: vec![n.to_string(), "0".into(), max.to_string()], bad: vec!["".into(), "x".into(), "-1".into(), (max + 1).to_string(), "1.5".into()] };
    const U64: u128 = u64::MAX as u128;
    let s = |v: &Option<String>| v.clone().unwrap();
    let p = |v: &Option<String>| {
        let b = bs58::decode(v.as_ref().unwrap()).into_vec().unwrap();
        Pubkey::new(&b)
    };
    let n = |v: &Option<String>| v.as_ref().unwrap().parse::<u64>().unwrap();
    vec![
        Cmd {
            name: "genesis",
            pars: vec![text(Some("payer"), Some('p'), true, "pay"), text(Some("mint"), Some('m'), true, "mnt"), key(Some("owner-pubkey"), Some('o'), true, 1), num(Some("decimals"), Some('d'), true, 9, 255)],
            make: Box::new(move |v| Command::Genesis { payer: s(&v[0]), mint: s(&v[1]), owner_pubkey: p(&v[2]), decimals: n(&v[3]) as u8 }),
        },
        Cmd {
            name: "mint",
            pars: vec![text(Some("payer"), Some('p'), true, "pay"), text(Some("signer"), Some('s'), true, "sig"), key(Some("mint-pubkey"), Some('m'), true, 1), key(Some("recipient"), Some('r'), false, 2), num(Some("quantity"), Some('q'), true, 12, U64)],
            make: Box::new(move |v| Command::Mint { payer: s(&v[0]), signer: s(&v[1]), mint_pubkey: p(&v[2]), recipient: v[3].as_ref().map(|_| p(&v[3])), quantity: n(&v[4]) }),
        },
        Cmd {
            name: "create-account",
            pars: vec![key(None, None, true, 1), key(None, None, true, 2), text(None, None, true, "pay")],
            make: Box::new(move |v| Command::CreateAccount { mint_pubkey: p(&v[0]), owner_pubkey: p(&v[1]), payer: s(&v[2]) }),
        },
        Cmd {
            name: "consume-events",
            pars: vec![
                key(Some("dex-program-id"), Some('d'), true, 1),
                text(Some("payer"), None, true, "pay"),
                key(Some("market"), Some('m'), true, 2),
                key(Some("coin-wallet"), Some('c'), true, 3),
                key(Some("pc-wallet"), Some('p'), true, 4),
                num(Some("num-workers"), Some('n'), true, 5, U64),
                num(Some("events-per-worker"), Some('e'), true, 6, U64),
                num(Some("num-accounts"), None, false, 7, U64),
                text(Some("log-directory"), None, true, "log"),
                num(Some("max-q-length"), None, false, 8, U64),
                num(Some("max-wait-for-events-delay"), None, false, 9, U64),
            ],
            make: Box::new(move |v| Command::ConsumeEvents {
                dex_program_id: p(&v[0]),
                payer: s(&v[1]),
                market: p(&v[2]),
                coin_wallet: p(&v[3]),
                pc_wallet: p(&v[4]),
                num_workers: n(&v[5]) as usize,
                events_per_worker: n(&v[6]) as usize,
                num_accounts: v[7].as_ref().map(|_| n(&v[7]) as usize),
                log_directory: s(&v[8]),
                max_q_length: v[9].as_ref().map(|_| n(&v[9])),
                max_wait_for_events_delay: v[10].as_ref().map(|_| n(&v[10])),
            }),
        },
        Cmd {
            name: "match-orders",
            pars: vec![key(Some("dex-program-id"), Some('d'), true, 1), text(Some("payer"), None, true, "pay"), key(Some("market"), Some('m'), true, 2), key(Some("coin-wallet"), Some('c'), true, 3), key(Some("pc-wallet"), Some('p'), true, 4)],
            make: Box::new(move |v| Command::MatchOrders { dex_program_id: p(&v[0]), payer: s(&v[1]), market: p(&v[2]), coin_wallet: p(&v[3]), pc_wallet: p(&v[4]) }),
        },
        Cmd {
            name: "monitor-queue",
            pars: vec![key(Some("dex-program-id"), Some('d'), true, 1), key(Some("market"), Some('m'), true, 2), num(Some("port"), None, true, 80, 65535)],
            make: Box::new(move |v| Command::MonitorQueue { dex_program_id: p(&v[0]), market: p(&v[1]), port: n(&v[2]) as u16 }),
        },
        Cmd {
            name: "print-event-queue",
            pars: vec![key(None, None, true, 1), key(None, None, true, 2)],
            make: Box::new(move |v| Command::PrintEventQueue { dex_program_id: p(&v[0]), market: p(&v[1]) }),
        },
        Cmd {
            name: "whole-shebang",
            pars: vec![text(None, None, true, "pay"), key(None, None, true, 1)],
            make: Box::new(move |v| Command::WholeShebang { payer: s(&v[0]), dex_program_id: p(&v[1]) }),
        },
        Cmd {
            name: "settle-funds",
            pars: vec![text(None, None, true, "pay"), key(None, None, true, 1), key(None, None, true, 2), key(None, None, true, 3), key(None, None, true, 4), key(None, None, true, 5), text(Some("signer"), Some('s'), false, "sig")],
            make: Box::new(move |v| Command::SettleFunds { payer: s(&v[0]), dex_program_id: p(&v[1]), market: p(&v[2]), orders: p(&v[3]), coin_wallet: p(&v[4]), pc_wallet: p(&v[5]), signer: v[6].clone() }),
        },
        Cmd {
            name: "list-market",
            pars: vec![text(None, None, true, "pay"), key(None, None, true, 1), key(Some("coin-mint"), Some('c'), true, 2), key(Some("pc-mint"), Some('p'), true, 3), num(Some("coin-lot-size"), None, false, 4, U64), num(Some("pc-lot-size"), None, false, 5, U64)],
            make: Box::new(move |v| Command::ListMarket { payer: s(&v[0]), dex_program_id: p(&v[1]), coin_mint: p(&v[2]), pc_mint: p(&v[3]), coin_lot_size: v[4].as_ref().map(|_| n(&v[4])), pc_lot_size: v[5].as_ref().map(|_| n(&v[5])) }),
        },
        Cmd {
            name: "initialize-token-account",
            pars: vec![key(None, None, true, 1), text(None, None, true, "own")],
            make: Box::new(move |v| Command::InitializeTokenAccount { mint: p(&v[0]), owner_account: s(&v[1]) }),
        },
    ]
}
/// 0: --long v, 1: --long=v, 2: -s v, 3: -sv, 4: -s=v
fn words(p: &Par, v: &str, form: usize) -> Vec<String> {
    match (p.long, p.short, form) {
        (None, _, _) => vec![v.to_string()],
        (Some(l), _, 1) => vec![format!("--{}={}", l, v)],
        (_, Some(c), 2) => vec![format!("-{}", c), v.to_string()],
        (_, Some(c), 3) => vec![format!("-{}{}", c, v)],
        (_, Some(c), 4) => vec![format!("-{}={}", c, v)],
        (Some(l), _, _) => vec![format!("--{}", l), v.to_string()],
    }
}
fn parse(cluster: Option<&str>, name: &str, words: &[String]) -> Result<Opts, String> {
    let mut a = vec!["crank".to_string()];
    a.extend(cluster.map(|c| c.to_string()));
    a.push(name.to_string());
    a.extend(words.iter().cloned());
    match catch_unwind(AssertUnwindSafe(|| Opts::try_parse_from(a))) {
        Ok(Ok(o)) => Ok(o),
        Ok(Err(e)) => Err(e.to_string()),
        Err(_) => Err("panic".into()),
    }
}
/// a command as a user types it
pub fn parsed(url: &str, c: &Command) -> Result<Opts, String> {
    let mut v: Vec<String> = vec![];
    let name = match c {
        Command::Genesis { payer, mint, owner_pubkey, decimals } => {
            v.extend(vec!["--payer".into(), payer.clone(), "--mint".into(), mint.clone(), "--owner-pubkey".into(), owner_pubkey.to_string(), "--decimals".into(), decimals.to_string()]);
            "genesis"
        }
        Command::Mint { payer, signer, mint_pubkey, recipient, quantity } => {
            v.extend(vec!["-p".into(), payer.clone(), "-s".into(), signer.clone(), "-m".into(), mint_pubkey.to_string(), "-q".into(), quantity.to_string()]);
            if let Some(r) = recipient {
                v.extend(vec!["-r".into(), r.to_string()]);
            }
            "mint"
        }
        Command::MatchOrders { dex_program_id, payer, market, coin_wallet, pc_wallet } => {
            v.extend(vec!["-d".into(), dex_program_id.to_string(), "--payer".into(), payer.clone(), "-m".into(), market.to_string(), "-c".into(), coin_wallet.to_string(), "-p".into(), pc_wallet.to_string()]);
            "match-orders"
        }
        Command::PrintEventQueue { dex_program_id, market } => {
            v.extend(vec![dex_program_id.to_string(), market.to_string()]);
            "print-event-queue"
        }
        Command::WholeShebang { payer, dex_program_id } => {
            v.extend(vec![payer.clone(), dex_program_id.to_string()]);
            "whole-shebang"
        }
        Command::SettleFunds { payer, dex_program_id, market, orders, coin_wallet, pc_wallet, signer } => {
            v.extend(vec![payer.clone(), dex_program_id.to_string(), market.to_string(), orders.to_string(), coin_wallet.to_string(), pc_wallet.to_string()]);
            if let Some(x) = signer {
                v.extend(vec!["--signer".into(), x.clone()]);
            }
            "settle-funds"
        }
        Command::ListMarket { payer, dex_program_id, coin_mint, pc_mint, coin_lot_size, pc_lot_size } => {
            v.extend(vec![payer.clone(), dex_program_id.to_string(), "--coin-mint".into(), coin_mint.to_string(), "--pc-mint".into(), pc_mint.to_string()]);
            if let Some(x) = coin_lot_size {
                v.extend(vec!["--coin-lot-size".into(), x.to_string()]);
            }
            if let Some(x) = pc_lot_size {
                v.extend(vec!["--pc-lot-size".into(), x.to_string()]);
            }
            "list-market"
        }
        Command::InitializeTokenAccount { mint, owner_account } => {
            v.extend(vec![mint.to_string(), owner_account.clone()]);
            "initialize-token-account"
        }
        _ => panic!("not typed here"),
    };
    parse(Some(url), name, &v)
}
fn orders(c: &Cmd, given: &[usize], all: bool) -> Vec<Vec<usize>> {
    // positional parameters keep their order among themselves
    let fine = |o: &[usize]| {
        let p: Vec<usize> = o.iter().cloned().filter(|i| c.pars[*i].long.is_none()).collect();
        p.windows(2).all(|w| w[0] < w[1])
    };
    let mut v: Vec<Vec<usize>> = vec![];
    if all && given.len() <= 6 {
        fn go(rest: &[usize], cur: &mut Vec<usize>, v: &mut Vec<Vec<usize>>) {
            if rest.is_empty() {
                v.push(cur.clone());
            }
            for i in 0..rest.len() {
                let mut r = rest.to_vec();
                cur.push(r.remove(i));
                go(&r, cur, v);
                cur.pop();
            }
        }
        go(given, &mut vec![], &mut v);
    } else {
        for r in 0..given.len().max(1) {
            let mut a = given.to_vec();
            a.rotate_left(r % given.len().max(1));
            v.push(a.clone());
            a.reverse();
            v.push(a);
        }
        for i in 0..given.len() {
            for j in i + 1..given.len() {
                let mut a = given.to_vec();
                a.swap(i, j);
                v.push(a);
            }
        }
    }
    v.retain(|o| fine(o));
    v.sort();
    v.dedup();
    v
}
const CLUSTERS: [(&str, &str, &str); 6] = [
    ("testnet", "t", "https://api.testnet.solana.com"),
    ("mainnet", "m", "https://api.mainnet-beta.solana.com"),
    ("vipmainnet", "v", "https://vip-api.mainnet-beta.solana.com"),
    ("devnet", "d", "https://api.devnet.solana.com"),
    ("localnet", "l", "http://127.0.0.1:8899"),
    ("debug", "g", "http://34.90.18.145:8899"),
];
fn cluster(n: &str) -> Option<Cluster> {
    let l = n.to_lowercase();
    let k = |i: usize| [Cluster::Testnet, Cluster::Mainnet, Cluster::VipMainnet, Cluster::Devnet, Cluster::Localnet, Cluster::Debug][i].clone();
    if l.contains("http") {
        return Some(Cluster::Custom(n.to_string()));
    }
    (0..6).find(|i| CLUSTERS[*i].0 == l || CLUSTERS[*i].1 == l).map(k)
}
pub fn check_cli(thorough: bool, r: &mut Report) {
    let cmds = commands();
    r.worlds = cmds.len();
    // the commands
    let jobs: Vec<(usize, usize)> = (0..cmds.len()).flat_map(|c| (0..1usize << cmds[c].pars.iter().filter(|p| !p.need).count()).map(move |m| (c, m))).collect();
    let (cm, jb) = (&cmds, &jobs);
    r.par(jobs.len(), |i, o| {
        let (ci, mask) = jb[i];
        let c = &cm[ci];
        let mut k = 0;
        let given: Vec<usize> = (0..c.pars.len())
            .filter(|p| {
                if c.pars[*p].need {
                    return true;
                }
                k += 1;
                mask >> (k - 1) & 1 == 1
            })
            .collect();
        let expect = |vals: &[usize]| -> Vec<Option<String>> { (0..c.pars.len()).map(|p| given.contains(&p).then(|| c.pars[p].good[vals[p]].clone())).collect() };
        let base = vec![0usize; c.pars.len()];
        let run = |o: &mut Out, clu: Option<&str>, ws: &[String], want: Option<Opts>| -> Option<String> {
            o.states += 1;
            o.transitions += 1;
            o.traces += 1;
            let got = parse(clu, c.name, ws);
            let same = match (&got, &want) {
                (Ok(g), Some(w)) => format!("{:?}", g) == format!("{:?}", w),
                (Err(e), None) => e != "panic",
                _ => false,
            };
            if same {
                return None;
            }
            Some(format!("command line: crank {} {} {:?}\nmeans: {:?}\nunderstood as: {:?}", clu.unwrap_or(""), c.name, ws, want, got))
        };
        let line = |ord: &[usize], vals: &[usize], form: &dyn Fn(usize) -> usize| -> Vec<String> { ord.iter().flat_map(|p| words(&c.pars[*p], &c.pars[*p].good[vals[*p]], form(*p))).collect() };
        let opts = |clu: Option<&str>, vals: &[usize]| Some(Opts { cluster: cluster(clu.unwrap_or("mainnet")).unwrap(), command: (c.make)(&expect(vals)) });
        // every order, each in every uniform form
        for ord in orders(c, &given, true) {
            for f in 0..5 {
                if let Some(b) = run(o, None, &line(&ord, &base, &|_| f), opts(None, &base)) {
                    return Some(b);
                }
            }
        }
        // every mixture of forms and every value of each pair of parameters
        for ord in orders(c, &given, thorough) {
            for &a in &given {
                for &b in &given {
                    for fa in 0..5 {
                        for fb in 0..5 {
                            if let Some(x) = run(o, Some("d"), &line(&ord, &base, &|p| if p == a { fa } else if p == b { fb } else { 0 }), opts(Some("d"), &base)) {
                                return Some(x);
                            }
                        }
                    }
                }
            }
            if !thorough {
                break;
            }
        }
        for &a in &given {
            for &b in &given {
                for va in 0..c.pars[a].good.len() {
                    for vb in 0..c.pars[b].good.len() {
                        let mut vals = base.clone();
                        vals[a] = va;
                        vals[b] = vb;
                        for clu in &[None, Some("m"), Some("Localnet"), Some("http://127.0.0.1:1/Path"), Some("https://x")] {
                            if let Some(x) = run(o, *clu, &line(&given, &vals, &|p| p % 3), opts(*clu, &vals)) {
                                return Some(x);
                            }
                        }
                    }
                }
            }
        }
        // what must be refused: something missing, twice, malformed, unknown, too much, no such cluster
        for &a in &given {
            if c.pars[a].need {
                let ord: Vec<usize> = given.iter().cloned().filter(|p| *p != a).collect();
                if let Some(x) = run(o, None, &line(&ord, &base, &|_| 0), None) {
                    return Some(x);
                }
            }
            if c.pars[a].long.is_some() {
                let mut ws = line(&given, &base, &|_| 0);
                ws.extend(words(&c.pars[a], &c.pars[a].good[1], 0));
                if let Some(x) = run(o, None, &ws, None) {
                    return Some(x);
                }
            }
            for bad in &c.pars[a].bad {
                for f in 0..2 {
                    let ws: Vec<String> = given.iter().flat_map(|p| words(&c.pars[*p], if *p == a { bad } else { &c.pars[*p].good[0] }, f)).collect();
                    if let Some(x) = run(o, None, &ws, None) {
                        return Some(x);
                    }
                }
            }
        }
        let full = line(&given, &base, &|_| 0);
        for extra in &["surplus", "--no-such-option", "-Z"] {
            let mut ws = full.clone();
            ws.push(extra.to_string());
            if let Some(x) = run(o, None, &ws, None) {
                return Some(x);
            }
        }
        for clu in &["x", "mainnet-beta", "ftp://x", "tt"] {
            if let Some(x) = run(o, Some(clu), &full, None) {
                return Some(x);
            }
        }
        None
    });
    let n = r.out.states;
    r.note(format!("command lines: {}", n));
    crate::ops::check_commands(thorough, r);
    // the clusters
    let mut names: Vec<String> = vec![];
    for (l, s, u) in &CLUSTERS {
        for w in &[*l, *s] {
            for m in 0u32..1 << w.len() {
                names.push(w.chars().enumerate().map(|(i, c)| if m >> i & 1 == 1 { c.to_ascii_uppercase() } else { c }).collect());
            }
            for i in 0..w.len() {
                names.push(format!("{}{}", &w[..i], &w[i + 1..]));
                for c in "abcdefghijklmnopqrstuvwxyz0 -".chars() {
                    names.push(format!("{}{}{}", &w[..i], c, &w[i + 1..]));
                    names.push(format!("{}{}{}", &w[..i], c, &w[i..]));
                    names.push(format!("{}{}", w, c));
                }
            }
        }
        names.push(u.to_string());
        names.push(u.to_uppercase());
        names.push(format!("{}/Some/Path?Q=1", u));
        names.push(u.replace("http", "httq"));
    }
    for a in 0u8..128 {
        names.push((a as char).to_string());
        for b in 0u8..128 {
            names.push(format!("{}{}", a as char, b as char));
        }
    }
    // pieces of names, names put together, all short words
    for (l, _, _) in &CLUSTERS {
        for i in 0..l.len() {
            for j in i + 1..=l.len() {
                names.push(l[i..j].to_string());
                names.push(format!("{}-beta", &l[i..j]));
                names.push(format!("{}net", &l[i..j]));
            }
        }
        for (m, n, _) in &CLUSTERS {
            for sep in &["", "-", "_", " ", "/", ":", "."] {
                for w in &[*m, *n, "beta", "net", "main", "vip", "solana", "serum"] {
                    names.push(format!("{}{}{}", l, sep, w));
                    names.push(format!("{}{}{}", w, sep, l));
                }
            }
        }
    }
    for w in &["local", "localhost", "127.0.0.1", "localhost:8899", "ws://localhost", "default", "none", "production", "prod", "staging"] {
        names.push(w.to_string());
    }
    let az: Vec<char> = "abcdefghijklmnopqrstuvwxyz".chars().collect();
    for n in 0..az.len().pow(if thorough { 4 } else { 3 }) {
        let mut x = n;
        let mut w = String::new();
        for _ in 0..if thorough { 4 } else { 3 } {
            w.push(az[x % 26]);
            x /= 26;
        }
        names.push(w);
    }
    names.push(String::new());
    names.sort();
    names.dedup();
    let nm = &names;
    r.par(names.len(), |i, o| {
        let s = &nm[i];
        o.states += 1;
        o.transitions += 1;
        o.traces += 1;
        let want = cluster(s);
        let got = Cluster::from_str(s).ok();
        if want != got {
            return Some(format!("cluster name {:?} means {:?}, understood as {:?}", s, want, got));
        }
        if let Some(c) = got {
            if Cluster::from_str(&c.to_string()).ok().as_ref() != Some(&c) {
                return Some(format!("cluster {:?} prints as {:?}", c, c.to_string()));
            }
            let url = match &c {
                Cluster::Custom(u) => u.clone(),
                _ => CLUSTERS.iter().find(|x| x.0 == s.to_lowercase() || x.1 == s.to_lowercase()).unwrap().2.to_string(),
            };
            if c.url() != url {
                return Some(format!("cluster {:?} is reached at {:?}, not {:?}", c, c.url(), url));
            }
        }
        None
    });
    r.note(format!("cluster names: {}", names.len()));
    if Cluster::default() != Cluster::Localnet && r.bad.is_none() {
        r.bad = Some("the default cluster is not the local one".into());
    }
}
