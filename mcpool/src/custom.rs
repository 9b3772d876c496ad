//! A pool implementation of our own on top of the framework, using every hook the framework
//! offers: it prices baskets itself, swaps, counts its operations in its own state, asks for extra
//! accounts and handles requests outside the protocol. What the hooks see and what becomes of their
//! answers is compared with the specification.
use crate::explore::*;
use crate::pool::*;
use crate::pscen::*;
use crate::rt::*;
use serum_pool::{
    schema::{ParamDesc, Basket, PoolState},
    Pool, PoolContext,
};
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError, pubkey::Pubkey};

// ---------------------------------------------------------------- the pool

fn count(c: &[u8]) -> u64 {
    let mut x = [0u8; 8];
    let n = c.len().min(8);
    x[..n].copy_from_slice(&c[..n]);
    u64::from_le_bytes(x)
}
fn price(custom: &[u8], assets: usize, n: u64, create: bool) -> Option<Vec<i64>> {
    if n == 55 {
        return None;
    }
    let mut v = vec![];
    for i in 0..assets as u64 {
        let x = if create { n.checked_mul(i + 2)?.checked_add(count(custom))? } else { n.checked_mul(i + 1)?.checked_sub(n / 3)? };
        if x > i64::MAX as u64 {
            return None;
        }
        v.push(x as i64);
    }
    if n == 7 && !v.is_empty() {
        v[0] = -1;
    }
    Some(v)
}
fn legs(custom: &[u8], r: &[u64]) -> Option<Vec<i64>> {
    if r.is_empty() || count(custom) == 3 || r.iter().any(|x| *x == 1 << 63) {
        return None;
    }
    Some(r.iter().map(|x| *x as i64).collect())
}
fn ours(d: &[u8]) -> bool {
    d.first().map_or(false, |b| [1u8, 0xcf, 0xce].contains(b))
}
fn seen(name: &'static str, c: &PoolContext, s: &PoolState, arg: &[u64]) {
    let mut b = vec![];
    let mut put = |tag: &[u8], v: &[AccountInfo]| {
        b.extend_from_slice(tag);
        b.push(v.len() as u8);
        for a in v {
            b.extend_from_slice(a.key.as_ref());
            b.push(a.is_signer as u8);
        }
    };
    let one = std::slice::from_ref;
    put(b"pool", one(c.pool_account));
    put(b"mint", one(c.pool_token_mint));
    put(b"vaults", c.pool_vault_accounts);
    put(b"authority", one(c.pool_authority));
    if let Some(u) = &c.user_accounts {
        put(b"user", one(u.pool_token_account));
        put(b"assets", u.asset_accounts);
        put(b"who", one(u.authority));
    }
    if let Some(f) = &c.fee_accounts {
        put(b"lqd", one(f.lqd_fee_account));
        put(b"init", one(f.initializer_fee_account));
        put(b"ref", one(f.referrer_fee_account));
    }
    if let Some(r) = &c.retbuf {
        put(b"ret", one(r.account));
        put(b"retp", one(r.program));
    }
    if let Some(p) = c.account_params {
        put(b"params", p);
    }
    put(b"custom", c.custom_accounts);
    b.extend_from_slice(c.program_id.as_ref());
    b.extend_from_slice(&s.custom_state);
    for a in arg {
        b.extend_from_slice(&a.to_le_bytes());
    }
    note(Ev::Hook(0, name, b));
}
fn bag(v: Option<Vec<i64>>) -> Result<Basket, ProgramError> {
    Ok(Basket { quantities: v.ok_or(ProgramError::Custom(90))? })
}
fn step_count(s: &mut PoolState) {
    s.custom_state = (count(&s.custom_state) + 1).to_le_bytes().to_vec();
}

struct Custom;
impl Pool for Custom {
    fn initialize_pool(c: &PoolContext, s: &mut PoolState) -> Result<(), ProgramError> {
        seen("initialize", c, s, &[]);
        let first = c.custom_accounts.get(0).ok_or(ProgramError::NotEnoughAccountKeys)?;
        match first.try_borrow_data()?.get(0) {
            Some(1) => s.fee_rate = MIN_FEE - 1,
            Some(2) => s.fee_rate = DENOM,
            Some(3) => s.vault_signer_nonce ^= 1,
            Some(4) => return Err(ProgramError::Custom(91)),
            Some(5) => s.fee_rate = MIN_FEE,
            Some(6) => s.fee_rate = DENOM - 1,
            Some(7) => s.name.push_str(" (custom)"),
            _ => (),
        }
        for (i, a) in c.custom_accounts[1..].iter().enumerate() {
            s.account_params.push(ParamDesc { address: a.key.into(), writable: i % 2 == 1 });
        }
        s.admin_key = Some(first.key.into());
        s.custom_state = vec![0; 8];
        Ok(())
    }
    fn get_creation_basket(c: &PoolContext, s: &PoolState, n: u64) -> Result<Basket, ProgramError> {
        seen("create", c, s, &[n]);
        bag(price(&s.custom_state, s.assets.len(), n, true))
    }
    fn get_redemption_basket(c: &PoolContext, s: &PoolState, n: u64) -> Result<Basket, ProgramError> {
        seen("redeem", c, s, &[n]);
        bag(price(&s.custom_state, s.assets.len(), n, false))
    }
    fn get_swap_basket(c: &PoolContext, s: &PoolState, r: &[u64]) -> Result<Basket, ProgramError> {
        seen("swap", c, s, r);
        bag(legs(&s.custom_state, r))
    }
    fn process_creation(c: &PoolContext, s: &mut PoolState, n: u64) -> Result<(), ProgramError> {
        let b = Self::get_creation_basket(c, s, n)?;
        c.transfer_basket_from_user(&b)?;
        c.mint_tokens(s, n)?;
        step_count(s);
        Ok(())
    }
    fn process_swap(c: &PoolContext, s: &mut PoolState, r: &[u64]) -> Result<(), ProgramError> {
        let b = Self::get_swap_basket(c, s, r)?;
        c.transfer_basket_from_user(&Basket { quantities: b.quantities.iter().map(|x| (*x).max(0)).collect() })?;
        c.transfer_basket_to_user(s, &Basket { quantities: b.quantities.iter().map(|x| -(*x).min(0)).collect() })?;
        step_count(s);
        Ok(())
    }
    fn process_foreign_instruction(p: &Pubkey, a: &[AccountInfo], d: &[u8]) -> ProgramResult {
        let mut b = p.as_ref().to_vec();
        for x in a {
            b.extend_from_slice(x.key.as_ref());
            b.push(x.is_signer as u8);
        }
        b.extend_from_slice(d);
        note(Ev::Hook(0, "foreign", b));
        if ours(d) {
            Ok(())
        } else {
            Err(ProgramError::Custom(92))
        }
    }
}
pub fn entry(prog: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    log_start();
    serum_pool::pool_entrypoint::<Custom>(prog, infos, data)
}

// ---------------------------------------------------------------- specification

pub fn basket(s: &PState, n: u64, create: bool) -> R<Vec<i64>> {
    price(&s.custom, s.assets.len(), n, create).ok_or("the pool's own price")
}
pub fn swap(s: &PState, r: &[u64]) -> R<Vec<i64>> {
    legs(&s.custom, r).ok_or("the pool's own rules")
}
pub fn bump(s: &mut PState) {
    s.custom = (count(&s.custom) + 1).to_le_bytes().to_vec();
}
pub fn foreign(d: &[u8]) -> bool {
    ours(d)
}
pub fn setup(sp: &Spec, s: &mut PState, extra: &[Idx]) -> R<()> {
    let first = *extra.get(0).ok_or("accounts missing")?;
    match sp.pre.data(first).get(0) {
        Some(1) => s.fee = MIN_FEE - 1,
        Some(2) => s.fee = DENOM,
        Some(3) => s.nonce ^= 1,
        Some(4) => return Err("the pool's own initialization"),
        Some(5) => s.fee = MIN_FEE,
        Some(6) => s.fee = DENOM - 1,
        Some(7) => s.name.extend_from_slice(b" (custom)"),
        _ => (),
    }
    for (i, a) in extra[1..].iter().enumerate() {
        s.params.push((sp.key(*a), i % 2 == 1));
    }
    s.admin = Some(sp.key(first));
    s.custom = vec![0; 8];
    Ok(())
}

/// what the hooks of an accepted request must have been given
fn expected(w: &World, pre: &St, ix: &Ix) -> Option<Vec<Ev>> {
    let key = |b: &mut Vec<u8>, i: Idx| {
        b.extend_from_slice(w.key(i).as_ref());
        b.push(ix.signers.contains(&i) as u8);
    };
    let q = match Req::read(&ix.data) {
        None => {
            let mut b = ix.prog.as_ref().to_vec();
            for a in &ix.accs {
                key(&mut b, *a);
            }
            b.extend_from_slice(&ix.data);
            return Some(vec![Ev::Hook(0, "foreign", b)]);
        }
        Some(q) => q?,
    };
    let s = PState::read(pre.data(*ix.accs.get(0)?));
    let n = match (&s, &q) {
        (None, Req::Init { n, .. }) => *n as usize,
        (Some(s), _) => s.assets.len(),
        _ => return None,
    };
    let params = s.as_ref().map_or(0, |s| s.params.len());
    let mut b = vec![];
    let mut at = 0;
    let mut take = |b: &mut Vec<u8>, tag: &[u8], n: usize| {
        b.extend_from_slice(tag);
        b.push(n as u8);
        for a in &ix.accs[at..at + n] {
            key(b, *a);
        }
        at += n;
    };
    take(&mut b, b"pool", 1);
    take(&mut b, b"mint", 1);
    take(&mut b, b"vaults", n);
    take(&mut b, b"authority", 1);
    match &q {
        Req::Exec(_) => {
            take(&mut b, b"user", 1);
            take(&mut b, b"assets", n);
            take(&mut b, b"who", 1);
            take(&mut b, b"lqd", 1);
            take(&mut b, b"init", 1);
            take(&mut b, b"ref", 1);
            take(&mut b, b"", 1);
            let l = b.len() - 34;
            b.truncate(l); // the token program
            take(&mut b, b"params", params);
        }
        Req::Get(_) => {
            take(&mut b, b"ret", 1);
            take(&mut b, b"retp", 1);
            take(&mut b, b"params", params);
        }
        Req::Init { .. } => {
            take(&mut b, b"lqd", 1);
            take(&mut b, b"init", 1);
            // the protocol's account stands in for the referrer
            b.extend_from_slice(b"ref");
            b.push(1);
            key(&mut b, ix.accs[3 + n]);
            take(&mut b, b"", 1);
            let l = b.len() - 34;
            b.truncate(l); // the rent sysvar
        }
    }
    b.extend_from_slice(b"custom");
    b.push((ix.accs.len() - at) as u8);
    for a in &ix.accs[at..] {
        key(&mut b, *a);
    }
    b.extend_from_slice(ix.prog.as_ref());
    let custom = s.as_ref().map_or(vec![], |s| s.custom.clone());
    b.extend_from_slice(&custom);
    let (name, arg) = match &q {
        Req::Init { .. } => ("initialize", vec![]),
        Req::Get(Action::Create(x)) | Req::Exec(Action::Create(x)) => ("create", vec![*x]),
        Req::Get(Action::Redeem(x)) => ("redeem", vec![*x]),
        Req::Exec(Action::Redeem(x)) => {
            let f = Spec { w, pre, ix }.fees(s.as_ref()?, *x, ix.accs[3 + n], ix.accs[5 + 2 * n], ix.accs[6 + 2 * n], ix.accs[7 + 2 * n]);
            ("redeem", vec![x - f.total()])
        }
        Req::Get(Action::Swap(v)) | Req::Exec(Action::Swap(v)) => ("swap", v.clone()),
    };
    for a in arg {
        b.extend_from_slice(&a.to_le_bytes());
    }
    Some(vec![Ev::Hook(0, name, b)])
}

fn judge(roles: &Roles, w: &World, pre: &St, ix: &Ix, kind: &'static str, out: &Out, post: &St) -> Vec<Finding> {
    let got: Vec<Ev> = log_take().into_iter().filter(|e| matches!(e, Ev::Hook(..))).collect();
    let mut f = judge_pool(w, roles, pre, ix, kind, out, post);
    if out.ok() && ix.prog == custom_id() {
        match expected(w, pre, ix) {
            // a hook may be asked more than once, but never anything else
            Some(want) if !got.is_empty() && got.iter().all(|g| *g == want[0]) => (),
            Some(_) => f.push(("context", format!("[{}] the pool implementation was not given the request's accounts and amounts as documented", kind))),
            None => (),
        }
    }
    f
}

// ---------------------------------------------------------------- scenarios

fn finish(u: U, name: &str, ops: Vec<Op>) -> Scn {
    let roles = u.roles();
    let init = u.w.st.clone();
    Scn { name: name.into(), w: u.w, init, ops, judge: Box::new(move |w, pre, ix, k, o, post| judge(&roles, w, pre, ix, k, o, post)) }
}
fn foreign_ops(u: &U) -> Vec<Op> {
    let mut o = vec![];
    let tag = REQ_TAG.to_le_bytes();
    let mut datas: Vec<Vec<u8>> = vec![vec![], vec![0], vec![1], vec![1; 7], vec![1; 8], vec![2; 9], vec![1; 40], tag[..7].to_vec(), tag.to_vec()];
    for bit in 0..64 {
        let mut t = tag.to_vec();
        t[bit / 8] ^= 1 << (bit % 8);
        datas.push(t.clone());
        t.extend_from_slice(&Req::Exec(Action::Create(100)).bytes()[8..]);
        datas.push(t);
    }
    for q in &[Req::Exec(Action::Create(100)), Req::Get(Action::Redeem(3)), Req::Exec(Action::Swap(vec![1, 2]))] {
        let b = q.bytes();
        for n in 0..b.len() {
            datas.push(b[..n].to_vec());
        }
        let mut c = b.clone();
        c.push(0);
        datas.push(c);
        for x in 3..=255u8 {
            let mut c = b.clone();
            c[8] = x;
            datas.push(c.clone());
            c[8] = b[8];
            c[9] = x;
            datas.push(c);
        }
    }
    for d in datas {
        let mut i = u.user(0, Action::Create(100));
        i.data = d.clone();
        o.push(op("foreign", format!("request {:?}", d), i.clone()));
        i.accs.truncate(1);
        i.signers.clear();
        o.push(op("foreign", format!("request {:?} with one account", d), i));
    }
    o
}

pub fn scenario(name: &str) -> Vec<Scn> {
    let act = |a: &Action| match a {
        Action::Create(n) => ("create", format!("create {}", n)),
        Action::Redeem(n) => ("redeem", format!("redeem {}", n)),
        Action::Swap(v) => ("swap", format!("swap {:?}", v.iter().map(|x| *x as i64).collect::<Vec<_>>())),
    };
    match name {
        "custom" => [(0usize, vec![1_000u64, 777]), (2, vec![1_000, 777]), (3, vec![500]), (1, vec![9, 0, 80])]
            .iter()
            .map(|(params, vaults)| {
                let u = build(&Cfg { custom: true, params: *params, vaults: vaults.clone(), ..Cfg::default() });
                let n = vaults.len();
                let mut acts: Vec<Action> = vec![];
                for x in &[1u64, 7, 8, 10, 55, 100, 0, u64::MAX / 2] {
                    acts.push(Action::Create(*x));
                    acts.push(Action::Redeem(*x));
                }
                let m = |x: i64| x as u64;
                for v in vec![vec![], vec![5], vec![m(-5)], vec![20, m(-9)], vec![m(-20), 9], vec![3, 4], vec![m(-3), m(-4)], vec![0, 0], vec![1, m(-1), 2], vec![1 << 63, 1], vec![m(-100_000), 1], vec![100_000, m(-1)], vec![1; 6]] {
                    acts.push(Action::Swap(v));
                }
                let mut o = vec![];
                for a in &acts {
                    let (k, l) = act(a);
                    let kind = k;
                    let i = u.user(0, a.clone());
                    o.push(op(k, l.clone(), i.clone()));
                    if let Action::Create(100) | Action::Redeem(10) | Action::Swap(_) = a {
                        o.push(op(k, format!("user1: {}", l), u.user(1, a.clone())));
                        // further accounts belong to the implementation
                        let mut j = i.clone();
                        j.accs.push(u.refw);
                        j.accs.push(u.mints[0]);
                        o.push(op(k, format!("{} with two more accounts", l), j.clone()));
                        j = i.clone();
                        j.accs.pop();
                        o.push(op(k, format!("{} with one account less", l), j));
                        let mut j = i.clone();
                        j.signers.clear();
                        o.push(op(k, format!("{} unsigned", l), j));
                        if n > 1 && *params > 1 {
                            let mut j = i.clone();
                            let e = j.accs.len();
                            j.accs.swap(e - 1, e - 2);
                            o.push(op(k, format!("{} with its parameters exchanged", l), j));
                        }
                    }
                    if let Action::Create(100) | Action::Redeem(10) | Action::Swap(_) = a {
                        let g = u.get(a.clone());
                        for k in 1..=*params {
                            for r in &[u.refw, u.users[0], u.p.pool] {
                                let mut j = i.clone();
                                let e = j.accs.len();
                                j.accs[e - k] = *r;
                                o.push(op(kind, format!("{} with {} as parameter {} from the end", l, u.w.name(*r), k), j));
                                let mut j = g.clone();
                                let e = j.accs.len();
                                j.accs[e - k] = *r;
                                o.push(op("quote", format!("quote {} with {} as parameter {} from the end", l, u.w.name(*r), k), j));
                            }
                        }
                    }
                    o.push(op("quote", format!("quote {}", l), u.get(a.clone())));
                    let mut g = u.get(a.clone());
                    g.accs.push(u.refw);
                    o.push(op("quote", format!("quote {} with one more account", l), g));
                }
                o.push(op("give", "donation", u.give(u.atok[0][0], u.p.vaults[0], u.users[0], 13)));
                finish(u, &format!("custom: {} params, vaults {:?}", params, vaults), o)
            })
            .collect(),
        "custom:foreign" => {
            let u = build(&Cfg { custom: true, ..Cfg::default() });
            let o = foreign_ops(&u);
            vec![finish(u, name, o)]
        }
        _ => {
            // initialization with everything the hook may do
            let mut u = build(&Cfg { custom: true, blank: true, room: 200, ..Cfg::default() });
            let mut flags = vec![];
            for i in 0..9u8 {
                flags.push(u.w.add(&format!("flag{}", i), mk_key(8, i as u64), solana_program::system_program::ID, 5, vec![i; (i < 8) as usize]));
            }
            let mut o = vec![];
            let p = u.p.clone();
            for fee in &[MIN_FEE - 1, MIN_FEE, 2_500, DENOM - 1, DENOM] {
                for f in &flags {
                    for more in vec![vec![], vec![u.refw], vec![u.refw, u.users[0]], vec![u.refw, u.refw, u.mints[0]], vec![u.refw; 9]] {
                        for nonce in &[p.nonce, p.nonce ^ 1] {
                            let mut a = vec![p.pool, p.mint];
                            a.extend_from_slice(&p.vaults);
                            a.extend_from_slice(&[p.auth, p.lqd, p.init_fee, u.rent, *f]);
                            a.extend_from_slice(&more);
                            let ix = Ix { prog: p.prog, data: Req::Init { nonce: *nonce, n: 2, name: b"mine".to_vec(), fee: *fee, custom: vec![1, 2] }.bytes(), accs: a, signers: vec![] };
                            o.push(op("init", format!("initialize: fee {}, {}, {} more accounts, nonce {}", fee, u.w.name(*f), more.len(), nonce), ix));
                        }
                    }
                }
            }
            let mut a = vec![p.pool, p.mint];
            a.extend_from_slice(&p.vaults);
            a.extend_from_slice(&[p.auth, p.lqd, p.init_fee, u.rent]);
            o.push(op("init", "initialize without the extra account", Ix { prog: p.prog, data: Req::Init { nonce: p.nonce, n: 2, name: vec![], fee: 2_500, custom: vec![] }.bytes(), accs: a, signers: vec![] }));
            for a in &[Action::Create(10), Action::Redeem(10), Action::Swap(vec![1, 2])] {
                let (k, l) = act(a);
                let mut i = u.user(0, a.clone());
                o.push(op(k, l.clone(), i.clone()));
                i.accs.push(u.refw);
                o.push(op(k, format!("{} with a parameter", l), i));
            }
            vec![finish(u, name, o)]
        }
    }
}
