//! Pool creation: every single deviation from a proper request, and all small proper ones.
use crate::explore::*;
use crate::pool::*;
use crate::pscen::*;
use crate::rt::*;
use solana_program::rent::Rent;
use std::sync::Arc;

fn base(u: &U, name: &[u8], fee: u32) -> Ix {
    let p = &u.p;
    let mut a = vec![p.pool, p.mint];
    a.extend_from_slice(&p.vaults);
    a.extend_from_slice(&[p.auth, p.lqd, p.init_fee, u.rent]);
    if u.c.admin {
        a.push(u.admin);
    }
    Ix { prog: p.prog, data: Req::Init { nonce: p.nonce, n: p.vaults.len() as u8, name: name.to_vec(), fee, custom: vec![] }.bytes(), accs: a, signers: vec![] }
}

pub fn scenario(admin: bool) -> Vec<Scn> {
    let mut v = vec![];
    let cfg = Cfg { admin, blank: true, second: false, ..Cfg::default() };
    // proper ones, then used, then initialized again
    for na in 0..4usize {
        for &s in &[0u64, 300] {
            let u = build(&Cfg { vaults: vec![1_000, 777, 5][..na.min(3)].to_vec(), supply: s, ..cfg.clone() });
            let mut o = vec![];
            for &f in &[0u32, 149, 150, 2_500, 999_999, 1_000_000, u32::MAX] {
                o.push(op("init", format!("init with fee {}", f), base(&u, b"pool", f)));
            }
            for n in &[&b""[..], b"x", b" x ", b"a\n", b"\0", b"Pool One", b"  ", "p\u{f6}\u{f6}l".as_bytes(), &[0xff, 0xfe], &[b'a'; 40], &[b'a'; 68], &[b'a'; 69], &[b'a'; 300]] {
                o.push(op("init", format!("init with name {:?}", String::from_utf8_lossy(n)), base(&u, n, 2_500)));
            }
            o.push(op("create", "create 10", u.user(0, Action::Create(10))));
            o.push(op("redeem", "redeem 10", u.user(0, Action::Redeem(10))));
            o.push(op("quote", "quote 10", u.get(Action::Create(10))));
            v.push(u.scn(&format!("init: {} assets, supply {}", na, s), o));
        }
    }
    // every account replaced by every other
    {
        let mut u = build(&Cfg { second: true, ..cfg.clone() });
        let (pm, sk, m0) = (u.w.key(u.p.mint), u.p.state.signer, u.w.key(u.mints[0]));
        let u1 = u.w.key(u.users[1]);
        let lam = 10_000_000_000;
        let w = &mut u.w;
        let evil = mk_key(90, 0);
        w.program("evil_program", evil);
        w.add("forged_mint", mk_key(91, 1), evil, lam, mint_data(Some(sk), 5));
        w.add("forged_vault", mk_key(91, 2), evil, lam, token_data(&m0, &sk, 1 << 40));
        w.add("forged_lqd", mk_key(91, 4), evil, lam, token_data(&pm, &fee_owner(), 5));
        w.add("forged_rent", mk_key(91, 6), evil, lam, vec![0; 17]);
        w.add("forged_pool", mk_key(91, 7), evil, lam, vec![0; 700]);
        w.token("other_vault", mk_key(92, 0), m0, sk, 400);
        w.token("user_vault", mk_key(92, 13), m0, u1, 400);
        w.token("other_lqd", mk_key(92, 1), pm, fee_owner(), 0);
        let mut tokd = |n: &str, i: u64, mint, owner, f: &dyn Fn(&mut Vec<u8>)| {
            let mut d = token_data(&mint, &owner, 0);
            f(&mut d);
            w.add(n, mk_key(93, i), spl_token::ID, lam, d)
        };
        let key = u1;
        tokd("lqd_delegated", 0, pm, fee_owner(), &|d| {
            d[72] = 1;
            d[76..108].copy_from_slice(key.as_ref());
            d[121] = 9;
        });
        tokd("lqd_delegated_zero", 1, pm, fee_owner(), &|d| {
            d[72] = 1;
            d[76..108].copy_from_slice(key.as_ref());
        });
        tokd("lqd_foreign_close", 2, pm, fee_owner(), &|d| {
            d[129] = 1;
            d[133..165].copy_from_slice(key.as_ref());
        });
        tokd("lqd_pool_close", 3, pm, fee_owner(), &|d| {
            d[129] = 1;
            d[133..165].copy_from_slice(sk.as_ref());
        });
        tokd("lqd_owner_close", 4, pm, fee_owner(), &|d| {
            d[129] = 1;
            d[133..165].copy_from_slice(fee_owner().as_ref());
        });
        tokd("lqd_by_delegate", 5, pm, u1, &|d| {
            d[72] = 1;
            d[76..108].copy_from_slice(fee_owner().as_ref());
            d[121] = 9;
        });
        tokd("lqd_other_mint", 6, m0, fee_owner(), &|_| ());
        tokd("uninitialized", 7, pm, fee_owner(), &|d| d[108] = 0);
        tokd("uninitialized_vault", 8, m0, sk, &|d| d[108] = 0);
        tokd("vault_by_delegate", 9, m0, u1, &|d| {
            d[72] = 1;
            d[76..108].copy_from_slice(sk.as_ref());
            d[121] = 9;
        });
        let r = |n: usize| Rent::default().minimum_balance(n) - 1;
        w.add("poor_vault", mk_key(94, 0), spl_token::ID, r(165), token_data(&m0, &sk, 3));
        w.add("poor_lqd", mk_key(94, 1), spl_token::ID, r(165), token_data(&pm, &fee_owner(), 0));
        w.add("poor_fees", mk_key(94, 2), spl_token::ID, r(165), token_data(&pm, &u1, 0));
        w.add("just_rich_fees", mk_key(94, 3), spl_token::ID, r(165) + 1, token_data(&pm, &u1, 0));
        let all: Vec<Idx> = (0..u.w.keys.len() as Idx).collect();
        let ix = base(&u, b"pool", 2_500);
        let mut o = vec![];
        for p in 0..ix.accs.len() {
            for &x in &all {
                let mut i = ix.clone();
                i.accs[p] = x;
                o.push(op("init", format!("init with {} as account {}", u.w.name(x), p), i));
            }
        }
        for n in 0..=ix.accs.len() {
            let mut i = ix.clone();
            i.accs.truncate(n);
            o.push(op("init", format!("init with {} accounts", n), i));
        }
        for n in 0..ix.data.len() {
            let mut i = ix.clone();
            i.data.truncate(n);
            o.push(op("init", format!("init truncated to {}", n), i));
        }
        let mut i = ix.clone();
        i.data.push(1);
        o.push(op("init", "init with a trailing byte", i));
        for b in 0..=255u8 {
            let mut i = ix.clone();
            i.data[9] = b; // nonce
            o.push(op("init", format!("init with nonce {}", b), i));
            // the authority that really follows from this nonce
            let mut i = ix.clone();
            i.data[10] = b; // number of assets
            o.push(op("init", format!("init with {} assets", b), i));
        }
        v.push(u.scn("init: substitutions", o));
    }
    // the state of the accounts themselves
    for n in 0..5usize {
        for which in 0..8 {
            let mut u = build(&cfg);
            let p = u.p.clone();
            let targets = [p.pool, p.mint, p.vaults[0], p.lqd, p.init_fee];
            let t = targets[n] as usize;
            let len = u.w.st.accs[t].data.len();
            let a = &mut u.w.st.accs[t];
            match which {
                0 => a.lam = Rent::default().minimum_balance(len) - 1,
                1 => a.lam = Rent::default().minimum_balance(len),
                2 => a.lam = 0,
                3 | 4 | 5 | 6 if n == 0 => {
                    let mut d = a.data.to_vec();
                    let at = match which {
                        3 => 0,
                        4 => 7,
                        5 => len / 2,
                        _ => len - 1,
                    };
                    d[at] = 1;
                    a.data = Arc::new(d);
                }
                7 if n == 0 => a.data = Arc::new(vec![]),
                3 if n == 1 => a.data = Arc::new(mint_data(None, 5)),
                4 if n == 1 => a.data = Arc::new(mint_data(Some(mk_key(1, 77)), 5)),
                3 if n == 3 => {
                    let mut d = a.data.to_vec();
                    d[32] ^= 1;
                    a.data = Arc::new(d);
                }
                _ => continue,
            }
            let ix = base(&u, b"pool", 2_500);
            let o = vec![op("init", "init", ix), op("create", "create 10", u.user(0, Action::Create(10)))];
            v.push(u.scn(&format!("init: {} in condition {}", ["pool", "mint", "vault", "lqd", "fees"][n], which), o));
        }
    }
    // each token account (of three assets) in each condition by itself
    for n in 0..6usize {
        for which in 0..10 {
            let mut u = build(&Cfg { vaults: vec![1_000, 777, 5], ..cfg.clone() });
            let evil = mk_key(90, 0);
            u.w.program("evil_program", evil);
            let p = u.p.clone();
            let targets = [p.mint, p.vaults[0], p.vaults[1], p.vaults[2], p.lqd, p.init_fee];
            let t = targets[n] as usize;
            let (k1, sk) = (mk_key(2, 1), p.state.signer);
            let a = &mut u.w.st.accs[t];
            let mut d = a.data.to_vec();
            let token = n > 0;
            match which {
                0 => a.lam = Rent::default().minimum_balance(d.len()) - 1,
                1 => a.owner = evil,
                2 => {
                    d.pop();
                }
                3 if token => d[108] = 0,
                4 if token => d[108] = 2,
                5 if token => {
                    d[72] = 1;
                    d[76..108].copy_from_slice(k1.as_ref());
                }
                6 if token => d[0] ^= 1,
                7 if token => d[32] ^= 1,
                8 if token => {
                    d[129] = 1;
                    d[133..165].copy_from_slice(sk.as_ref());
                }
                9 if token => {
                    d[129] = 1;
                    d[133..165].copy_from_slice(k1.as_ref());
                }
                3 => d[45] = 0, // the mint is not initialized
                4 => d[4] ^= 1,
                5 => d[0] = 0,
                _ => continue,
            }
            a.data = Arc::new(d);
            let ix = base(&u, b"pool", 2_500);
            let o = vec![op("init", "init", ix), op("create", "create 10", u.user(0, Action::Create(10)))];
            v.push(u.scn(&format!("init: three assets, account {} in state {}", n, which), o));
        }
    }
    // a pool token of another program altogether
    {
        let mut u = build(&cfg);
        let evil = mk_key(90, 0);
        u.w.program("evil_program", evil);
        let (mk, sk, ik) = (mk_key(91, 1), u.p.state.signer, u.w.key(u.initializer));
        let lam = 10_000_000_000;
        let m = u.w.add("forged_mint", mk, evil, lam, mint_data(Some(sk), 5));
        let l = u.w.token("its_lqd", mk_key(91, 2), mk, fee_owner(), 0);
        let f = u.w.token("its_fees", mk_key(91, 3), mk, ik, 0);
        let mut ix = base(&u, b"pool", 2_500);
        ix.accs[1] = m;
        ix.accs[5] = l;
        ix.accs[6] = f;
        v.push(u.scn("init: a forged pool token with its own accounts", vec![op("init", "init", ix)]));
    }
    // the exact size the record needs
    for d in 0..5i64 {
        let mut u = build(&Cfg { room: 0, ..cfg.clone() });
        let t = u.p.pool as usize;
        let n = (u.w.st.accs[t].data.len() as i64 + d - 2) as usize;
        u.w.st.accs[t].data = Arc::new(vec![0; n]);
        let ix = base(&u, b"pool", 2_500);
        let o = vec![op("init", "init", ix), op("create", "create 10", u.user(0, Action::Create(10)))];
        v.push(u.scn(&format!("init: pool account of {} bytes", n), o));
    }
    v
}

/// two accounts replaced at a time
pub fn pairs(admin: bool) -> Vec<Scn> {
    let mut v = vec![];
    let cfg = Cfg { admin, blank: true, second: false, ..Cfg::default() };
    {
        let mut u = build(&Cfg { second: true, vaults: vec![1_000, 777, 5], ..cfg.clone() });
        let (m0, pm, sk, u1) = (u.w.key(u.mints[0]), u.w.key(u.p.mint), u.p.state.signer, u.w.key(u.users[1]));
        u.w.token("other_vault", mk_key(92, 0), m0, sk, 400);
        u.w.token("user_vault", mk_key(92, 13), m0, u1, 400);
        u.w.token("other_lqd", mk_key(92, 1), pm, fee_owner(), 0);
        let all: Vec<Idx> = (0..u.w.keys.len() as Idx).collect();
        let ix = base(&u, b"pool", 2_500);
        let mut o = vec![];
        for p in 0..ix.accs.len() {
            for q in 0..p {
                for &x in &all {
                    for &y in &all {
                        let mut i = ix.clone();
                        i.accs[p] = x;
                        i.accs[q] = y;
                        o.push(op("init", format!("init with {} as account {} and {} as account {}", u.w.name(x), p, u.w.name(y), q), i));
                    }
                }
            }
        }
        v.push(u.scn("init: pairs of substitutions", o));
    }
    v
}
