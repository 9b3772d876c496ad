//! Builds worlds: accounts, mints, wallets and one or two markets created through the real
//! InitializeMarket instruction.
use crate::abs::*;
use crate::world::*;
use solana_program::pubkey::Pubkey;
use std::str::FromStr;

#[derive(Clone)]
pub struct Cfg {
    pub coin_lot: u64,
    pub pc_lot: u64,
    pub fee_bps: u16,
    pub dust: u64,
    pub users: usize,
    pub coin: u64,
    pub pc: u64,
    /// (mint kind: 0 none/other, 1 SRM, 2 MSRM; balance) per user
    pub srm: Vec<(u8, u64)>,
    pub oo_auth: bool,
    pub prune_auth: bool,
    pub crank_auth: bool,
    pub stable: bool,
    pub stable_key: String,
    pub second: bool,
    pub ev_cap: usize,
    pub slab_nodes: usize,
    pub rq_cap: usize,
    /// the users' keys differ in this 8-byte word only (4: a single byte that is not zero)
    pub twin: Option<usize>,
    /// authorities that are the same account: 1 pruner = opener, 2 crank = pruner
    pub share: u8,
}

impl Default for Cfg {
    fn default() -> Self {
        Cfg {
            coin_lot: 100,
            pc_lot: 1009,
            fee_bps: 0,
            dust: 5,
            users: 2,
            coin: 5_000,
            pc: 400_000,
            srm: vec![],
            oo_auth: false,
            prune_auth: false,
            crank_auth: false,
            stable: false,
            stable_key: "77quYg4MGneUdjgXCunt9GgM1usmrxKY31twEy3WHwcS".into(),
            second: false,
            ev_cap: 128,
            slab_nodes: 201,
            rq_cap: 1,
            twin: None,
            share: 0,
        }
    }
}

pub fn init_data(coin_lot: u64, pc_lot: u64, fee_bps: u16, nonce: u64, dust: u64) -> Vec<u8> {
    let mut v = vec![0u8, 0, 0, 0, 0];
    v.extend_from_slice(&coin_lot.to_le_bytes());
    v.extend_from_slice(&pc_lot.to_le_bytes());
    v.extend_from_slice(&fee_bps.to_le_bytes());
    v.extend_from_slice(&nonce.to_le_bytes());
    v.extend_from_slice(&dust.to_le_bytes());
    v
}

pub fn vault_signer(w: &World, market: &Pubkey) -> (u64, Pubkey) {
    for n in 0u64..255 {
        if let Ok(k) = Pubkey::create_program_address(&[market.as_ref(), &n.to_le_bytes()], &w.prog) {
            return (n, k);
        }
    }
    panic!("no vault signer nonce");
}

/// accounts of a market, not yet initialised
pub fn market_accounts(w: &mut World, c: &Cfg, tag: u64, nm: &str, key: Option<Pubkey>, coin_mint: Idx, pc_mint: Idx) -> Mkt {
    // with twins, a second market's addresses differ from the first's in one word only
    let mk_key = |tag: u64, n: u64| match c.twin {
        Some(k) if tag == 60 && k < 4 => {
            let mut b = mk_key(10, n).to_bytes();
            b[8 * k] ^= 0x5a;
            b[8 * k + 7] ^= 0x5a;
            Pubkey::new(&b)
        }
        _ => mk_key(tag, n),
    };
    let mk = key.unwrap_or_else(|| mk_key(tag, 0));
    let (nonce, vs) = vault_signer(w, &mk);
    let sz = if c.oo_auth { MKT2_SIZE } else { MKT_SIZE };
    let market = w.add_dex(&format!("{}market", nm), mk, sz);
    let req_q = w.add_dex(&format!("{}req_q", nm), mk_key(tag, 1), 32 + 80 * c.rq_cap);
    let event_q = w.add_dex(&format!("{}event_q", nm), mk_key(tag, 2), 32 + EV_SIZE * c.ev_cap);
    let slab = 8 + 32 + NODE_SIZE * c.slab_nodes;
    let bids = w.add_dex(&format!("{}bids", nm), mk_key(tag, 3), slab);
    let asks = w.add_dex(&format!("{}asks", nm), mk_key(tag, 4), slab);
    let (cm, pm) = (*w.key(coin_mint), *w.key(pc_mint));
    let coin_vault = w.add_token(&format!("{}coin_vault", nm), mk_key(tag, 5), &cm, &vs, 0);
    let pc_vault = w.add_token(&format!("{}pc_vault", nm), mk_key(tag, 6), &pm, &vs, 0);
    let vault_signer = w.add_sys(&format!("{}vault_signer", nm), vs);
    let auth = |w: &mut World, on: bool, n: &str, i: u64| if on { Some(w.add_sys(&format!("{}{}", nm, n), mk_key(tag, i))) } else { None };
    let oo_auth = auth(w, c.oo_auth, "oo_auth", 7);
    let mut prune_auth = auth(w, c.prune_auth, "prune_auth", 8);
    if c.share & 1 != 0 {
        prune_auth = prune_auth.and(oo_auth);
    }
    let mut crank_auth = auth(w, c.crank_auth, "crank_auth", 9);
    if c.share & 2 != 0 {
        crank_auth = crank_auth.and(prune_auth);
    }
    Mkt {
        market,
        req_q,
        event_q,
        bids,
        asks,
        coin_vault,
        pc_vault,
        coin_mint,
        pc_mint,
        vault_signer,
        nonce,
        coin_lot: c.coin_lot,
        pc_lot: c.pc_lot,
        ev_cap: c.ev_cap,
        slab_nodes: c.slab_nodes,
        oo_auth,
        prune_auth,
        crank_auth,
    }
}

pub fn init_ix(w: &World, m: &Mkt, c: &Cfg, rent: Idx) -> Ix {
    let mut accs = vec![
        m.market, m.req_q, m.event_q, m.bids, m.asks, m.coin_vault, m.pc_vault, m.coin_mint, m.pc_mint, rent,
    ];
    let _ = w;
    accs.extend(m.oo_auth);
    accs.extend(m.prune_auth);
    accs.extend(m.crank_auth);
    Ix {
        data: init_data(c.coin_lot, c.pc_lot, c.fee_bps, m.nonce, c.dust),
        accs,
        signers: vec![],
        readonly: vec![m.coin_vault, m.pc_vault, m.coin_mint, m.pc_mint, rent],
    }
}

pub fn build(c: &Cfg) -> Dex {
    let mut d = prepare(c);
    let mut ms = vec![d.m.clone()];
    ms.extend(d.m2.clone());
    for (n, mm) in ms.iter().enumerate() {
        let mut cc = c.clone();
        if n == 1 {
            cc.oo_auth = false;
        }
        let ix = init_ix(&d.w, mm, &cc, d.rent);
        let pre = d.w.st.clone();
        let mut post = pre.clone();
        let r = d.w.exec(&pre, &mut post, &ix);
        if !r.ok() {
            let mut p = crate::explore::PREFIX.lock().unwrap();
            p.push(("market initialisation".into(), "init", (Asp::Result, format!("refused ({:?}) although it is legitimate", r))));
        }
        d.w.st = post;
    }
    d
}

/// everything but the markets' initialisation
pub fn prepare(c: &Cfg) -> Dex {
    let mut w = World::new();
    let (token, rent) = w.add_programs();
    let coin_mint = w.add_mint("coin_mint", mk_key(1, 1));
    let pc_mint = w.add_mint("pc_mint", mk_key(1, 2));
    let srm_mint = w.add_mint("srm_mint", serum_dex::instruction::srm_token::ID);
    let msrm_mint = w.add_mint("msrm_mint", serum_dex::instruction::msrm_token::ID);
    let (cmk, pmk) = (*w.key(coin_mint), *w.key(pc_mint));
    let key = if c.stable {
        Some(Pubkey::from_str(&c.stable_key).unwrap())
    } else {
        None
    };
    let m = market_accounts(&mut w, c, 10, "", key, coin_mint, pc_mint);
    let mut users = vec![];
    let twin = |tag: u64, u: usize, n: u64, own: u64| match c.twin {
        None => mk_key(own, n),
        // addresses with a single non-zero byte
        Some(4) => {
            let mut b = [0u8; 32];
            b[8 * u + n as usize] = if tag == 400 { 9 } else { 7 };
            Pubkey::new(&b)
        }
        Some(k) => {
            let mut b = mk_key(tag, n).to_bytes();
            b[8 * k] ^= u as u8;
            b[8 * k + 7] ^= u as u8;
            Pubkey::new(&b)
        }
    };
    for u in 0..c.users {
        let t = 100 + u as u64;
        let ch = (b'A' + u as u8) as char;
        let owner = w.add_sys(&format!("owner{}", ch), twin(100, u, 0, t));
        let ok = *w.key(owner);
        // open orders keys do not follow user order
        let oo = w.add_dex(&format!("oo{}", ch), twin(300, u, 1, 300 - u as u64), OO_SIZE);
        let coin = w.add_token(&format!("coin{}", ch), twin(100, u, 2, t), &cmk, &ok, c.coin);
        let pc = w.add_token(&format!("pc{}", ch), twin(100, u, 3, t), &pmk, &ok, c.pc);
        let (kind, bal) = c.srm.get(u).copied().unwrap_or((0, 0));
        let mint = match kind {
            1 => *w.key(srm_mint),
            2 => *w.key(msrm_mint),
            _ => cmk,
        };
        let srm = w.add_token(&format!("srm{}", ch), twin(100, u, 4, t), &mint, &ok, bal);
        users.push(User { owner, oo, coin, pc, srm });
    }
    let sweeper = w.add_sys("sweeper", serum_dex::instruction::fee_sweeper::ID);
    let sk = *w.key(sweeper);
    let sweep_to = w.add_token("sweep_to", mk_key(50, 1), &pmk, &sk, 0);
    let disabler = w.add_sys("disabler", serum_dex::instruction::disable_authority::ID);
    let refk = w.add_sys("referrer_owner", mk_key(51, 0));
    let rk = *w.key(refk);
    let referrer = w.add_token("referrer", mk_key(51, 1), &pmk, &rk, 0);
    let rent_dest = w.add_sys("rent_dest", mk_key(52, 0));
    let fresh = w.add("fresh", mk_key(53, 0), solana_program::system_program::ID, 0, &[]);
    let mut oos: Vec<Idx> = users.iter().map(|u| u.oo).collect();
    let mut m2 = None;
    if c.second {
        let mm = market_accounts(&mut w, &Cfg { oo_auth: false, prune_auth: false, crank_auth: false, ..c.clone() }, 60, "m2_", None, coin_mint, pc_mint);
        for u in 0..c.users {
            let ch = (b'A' + u as u8) as char;
            oos.push(w.add_dex(&format!("m2_oo{}", ch), twin(400, u, 1, 400 + u as u64), OO_SIZE));
        }
        m2 = Some(mm);
    }
    let toks: Vec<Idx> = (0..w.accs.len() as Idx).filter(|&i| w.accs[i as usize].owner == spl_token::ID && w.accs[i as usize].len == 165).collect();
    Dex { w, m, users, token, rent, sweeper, sweep_to, disabler, referrer, rent_dest, fresh, toks, oos, m2, alt: None, stable: c.stable }
}
