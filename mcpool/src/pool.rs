//! Pools: reference specification of the pool protocol and the admin-controlled pool.
use crate::explore::*;
use crate::rt::*;
use solana_program::pubkey::Pubkey;
use solana_program::rent::Rent;
use solana_program::sysvar;
use std::str::FromStr;

pub const REQ_TAG: u64 = 0x220a6cbdcd1cc4cf;
pub const STATE_TAG: u64 = 0x16a7874c7fb2301b;
pub const ADMIN_TAG: u64 = 0x31e6452361a17878;
pub const CUSTOM_TAG: u64 = 0x4a3ab7f76f93f94e;
pub const MIN_FEE: u32 = 150;
pub const DENOM: u32 = 1_000_000;

pub fn fee_owner() -> Pubkey {
    Pubkey::from_str("3LTvJCPiPSMjX1kBJ6ZfEhn4G2hM46aJ1yEZsk8i12TK").unwrap()
}

// ---------------------------------------------------------------- encodings

pub struct Rd<'a>(pub &'a [u8]);
impl<'a> Rd<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        if self.0.len() < n {
            return None;
        }
        let (a, b) = self.0.split_at(n);
        self.0 = b;
        Some(a)
    }
    fn u8(&mut self) -> Option<u8> {
        self.take(1).map(|b| b[0])
    }
    pub fn u32(&mut self) -> Option<u32> {
        self.take(4).map(|b| u32::from_le_bytes([b[0], b[1], b[2], b[3]]))
    }
    pub fn u64(&mut self) -> Option<u64> {
        let mut x = [0u8; 8];
        x.copy_from_slice(self.take(8)?);
        Some(u64::from_le_bytes(x))
    }
    fn key(&mut self) -> Option<Pubkey> {
        self.take(32).map(Pubkey::new)
    }
    fn bytes(&mut self) -> Option<Vec<u8>> {
        let n = self.u32()? as usize;
        self.take(n).map(|b| b.to_vec())
    }
    fn flag(&mut self) -> Option<bool> {
        match self.u8()? {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PState {
    pub mint: Pubkey,
    pub assets: Vec<(Pubkey, Pubkey)>, // mint, vault
    pub signer: Pubkey,
    pub nonce: u8,
    pub params: Vec<(Pubkey, bool)>,
    pub name: Vec<u8>,
    pub lqd: Pubkey,
    pub init_fee: Pubkey,
    pub fee: u32,
    pub admin: Option<Pubkey>,
    pub custom: Vec<u8>,
}
impl PState {
    pub fn read(d: &[u8]) -> Option<PState> {
        let mut r = Rd(d);
        if r.u64()? != STATE_TAG {
            return None;
        }
        let mint = r.key()?;
        let mut assets = vec![];
        for _ in 0..r.u32()? {
            assets.push((r.key()?, r.key()?));
        }
        let signer = r.key()?;
        let nonce = r.u8()?;
        let mut params = vec![];
        for _ in 0..r.u32()? {
            params.push((r.key()?, r.flag()?));
        }
        let name = r.bytes()?;
        std::str::from_utf8(&name).ok()?;
        let (lqd, init_fee, fee) = (r.key()?, r.key()?, r.u32()?);
        let admin = if r.flag()? { Some(r.key()?) } else { None };
        let custom = r.bytes()?;
        Some(PState { mint, assets, signer, nonce, params, name, lqd, init_fee, fee, admin, custom })
    }
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = STATE_TAG.to_le_bytes().to_vec();
        let vec = |o: &mut Vec<u8>, b: &[u8]| {
            o.extend_from_slice(&(b.len() as u32).to_le_bytes());
            o.extend_from_slice(b);
        };
        o.extend_from_slice(self.mint.as_ref());
        o.extend_from_slice(&(self.assets.len() as u32).to_le_bytes());
        for a in &self.assets {
            o.extend_from_slice(a.0.as_ref());
            o.extend_from_slice(a.1.as_ref());
        }
        o.extend_from_slice(self.signer.as_ref());
        o.push(self.nonce);
        o.extend_from_slice(&(self.params.len() as u32).to_le_bytes());
        for p in &self.params {
            o.extend_from_slice(p.0.as_ref());
            o.push(p.1 as u8);
        }
        vec(&mut o, &self.name);
        o.extend_from_slice(self.lqd.as_ref());
        o.extend_from_slice(self.init_fee.as_ref());
        o.extend_from_slice(&self.fee.to_le_bytes());
        match &self.admin {
            None => o.push(0),
            Some(k) => {
                o.push(1);
                o.extend_from_slice(k.as_ref());
            }
        }
        vec(&mut o, &self.custom);
        o
    }
    pub fn paused(&self) -> Option<bool> {
        let mut r = Rd(&self.custom);
        if r.u64()? != CUSTOM_TAG {
            return None;
        }
        let p = r.flag()?;
        if r.0.is_empty() {
            Some(p)
        } else {
            None
        }
    }
}
pub fn custom(paused: bool) -> Vec<u8> {
    let mut o = CUSTOM_TAG.to_le_bytes().to_vec();
    o.push(paused as u8);
    o
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Action {
    Create(u64),
    Redeem(u64),
    Swap(Vec<u64>),
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Req {
    Init { nonce: u8, n: u8, name: Vec<u8>, fee: u32, custom: Vec<u8> },
    Get(Action),
    Exec(Action),
}
impl Req {
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = REQ_TAG.to_le_bytes().to_vec();
        let act = |o: &mut Vec<u8>, a: &Action| match a {
            Action::Create(n) => {
                o.push(0);
                o.extend_from_slice(&n.to_le_bytes());
            }
            Action::Redeem(n) => {
                o.push(1);
                o.extend_from_slice(&n.to_le_bytes());
            }
            Action::Swap(v) => {
                o.push(2);
                o.extend_from_slice(&(v.len() as u32).to_le_bytes());
                for x in v {
                    o.extend_from_slice(&x.to_le_bytes());
                }
            }
        };
        match self {
            Req::Init { nonce, n, name, fee, custom } => {
                o.push(0);
                o.push(*nonce);
                o.push(*n);
                o.extend_from_slice(&(name.len() as u32).to_le_bytes());
                o.extend_from_slice(name);
                o.extend_from_slice(&fee.to_le_bytes());
                o.extend_from_slice(&(custom.len() as u32).to_le_bytes());
                o.extend_from_slice(custom);
            }
            Req::Get(a) => {
                o.push(1);
                act(&mut o, a);
            }
            Req::Exec(a) => {
                o.push(2);
                act(&mut o, a);
            }
        }
        o
    }
    /// None: not a request of the protocol at all; Some(None): malformed
    pub fn read(d: &[u8]) -> Option<Option<Req>> {
        let mut r = Rd(d);
        if r.u64()? != REQ_TAG {
            return None;
        }
        fn act(r: &mut Rd) -> Option<Action> {
            Some(match r.u8()? {
                0 => Action::Create(r.u64()?),
                1 => Action::Redeem(r.u64()?),
                2 => {
                    let mut v = vec![];
                    for _ in 0..r.u32()? {
                        v.push(r.u64()?);
                    }
                    Action::Swap(v)
                }
                _ => return None,
            })
        }
        fn body(r: &mut Rd) -> Option<Req> {
            let q = match r.u8()? {
                0 => {
                    let q = Req::Init { nonce: r.u8()?, n: r.u8()?, name: r.bytes()?, fee: r.u32()?, custom: r.bytes()? };
                    if let Req::Init { name, .. } = &q {
                        std::str::from_utf8(name).ok()?;
                    }
                    q
                }
                1 => Req::Get(act(r)?),
                2 => Req::Exec(act(r)?),
                _ => return None,
            };
            if r.0.is_empty() {
                Some(q)
            } else {
                None
            }
        }
        Some(body(&mut r))
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Adm {
    Pause,
    Unpause,
    Approve(u64),
    Add,
    Remove,
    Fee(u32),
    Admin,
}
impl Adm {
    pub fn bytes(&self) -> Vec<u8> {
        let mut o = ADMIN_TAG.to_le_bytes().to_vec();
        match self {
            Adm::Pause => o.push(0),
            Adm::Unpause => o.push(1),
            Adm::Approve(n) => {
                o.push(2);
                o.extend_from_slice(&n.to_le_bytes());
            }
            Adm::Add => o.push(3),
            Adm::Remove => o.push(4),
            Adm::Fee(f) => {
                o.push(5);
                o.extend_from_slice(&f.to_le_bytes());
            }
            Adm::Admin => o.push(6),
        }
        o
    }
    pub fn read(d: &[u8]) -> Option<Adm> {
        let mut r = Rd(d);
        if r.u64()? != ADMIN_TAG {
            return None;
        }
        let a = match r.u8()? {
            0 => Adm::Pause,
            1 => Adm::Unpause,
            2 => Adm::Approve(r.u64()?),
            3 => Adm::Add,
            4 => Adm::Remove,
            5 => Adm::Fee(r.u32()?),
            6 => Adm::Admin,
            _ => return None,
        };
        if r.0.is_empty() {
            Some(a)
        } else {
            None
        }
    }
}

// ---------------------------------------------------------------- specification

pub enum Want {
    Yes(St),
    No(&'static str),
    /// not specified
    Any,
}
pub type R<T> = Result<T, &'static str>;
/// which implementation of the protocol
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Mode {
    Simple,
    Admin,
    Custom,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Fees {
    pub lqd: u64,
    pub init: u64,
    pub referrer: u64,
}
impl Fees {
    pub fn total(&self) -> u64 {
        self.lqd + self.init + self.referrer
    }
}
fn ceil_div(a: u128, b: u128) -> u128 {
    (a + b - 1) / b
}
/// total = rate of the size rounded up; LQD gets 40 % but at least 1 bp rounded up; the referrer
/// half of that as far as available; the initializer the rest
pub fn fees_of(rate: u32, n: u64) -> Fees {
    let total = ceil_div(n as u128 * rate as u128, DENOM as u128) as u64;
    let lqd = ((total as u128 * 2 / 5) as u64).max(ceil_div(n as u128, 10_000) as u64);
    let referrer = (lqd / 2).min(total - lqd);
    Fees { lqd, referrer, init: total - lqd - referrer }
}

pub struct Spec<'a> {
    pub w: &'a World,
    pub pre: &'a St,
    pub ix: &'a Ix,
}

impl<'a> Spec<'a> {
    fn acc(&self, n: usize) -> R<Idx> {
        self.ix.accs.get(n).copied().ok_or("accounts missing")
    }
    pub fn key(&self, i: Idx) -> Pubkey {
        self.w.key(i)
    }
    fn is(&self, i: Idx, k: &Pubkey) -> R<()> {
        if self.key(i) == *k {
            Ok(())
        } else {
            Err("wrong address")
        }
    }
    fn tok(&self, i: Idx, mint: &Pubkey) -> R<Tok> {
        let t = tok(self.pre, i).ok_or("not a token account")?;
        if t.mint != *mint {
            return Err("wrong mint");
        }
        Ok(t)
    }
    fn held_by(&self, t: &Tok, who: &Pubkey) -> R<()> {
        if t.owner == *who || t.delegate == Some(*who) {
            Ok(())
        } else {
            Err("wrong token authority")
        }
    }
    fn token(&self, st: &mut St, accs: Vec<Idx>, signers: &[Idx], data: Vec<u8>) -> R<()> {
        let ix = Ix { prog: spl_token::ID, data, accs, signers: signers.to_vec() };
        let (o, s) = self.w.exec(st, &ix);
        if !o.ok() {
            return Err("token program refuses");
        }
        *st = s;
        Ok(())
    }
    fn transfer(&self, st: &mut St, from: Idx, to: Idx, auth: Idx, signers: &[Idx], n: u64) -> R<()> {
        let mut d = vec![3u8];
        d.extend_from_slice(&n.to_le_bytes());
        self.token(st, vec![from, to, auth], signers, d)
    }

    fn state(&self) -> R<Option<PState>> {
        let p = self.acc(0)?;
        if *self.pre.owner(p) != self.ix.prog {
            return Err("pool account of another program");
        }
        let d = self.pre.data(p);
        if d.iter().all(|b| *b == 0) {
            return Ok(None);
        }
        PState::read(d).map(Some).ok_or("malformed pool")
    }

    /// checks common to all requests; returns the indices of mint, vaults and authority
    fn common(&self, s: &PState) -> R<(Idx, Vec<Idx>, Idx)> {
        let n = s.assets.len();
        let mint = self.acc(1)?;
        let vaults: Vec<Idx> = (0..n).map(|i| self.acc(2 + i)).collect::<R<_>>()?;
        let auth = self.acc(2 + n)?;
        self.is(mint, &s.mint)?;
        let (ma, _) = mint_of(self.pre, mint).ok_or("not a mint")?;
        if ma != Some(s.signer) {
            return Err("mint authority");
        }
        for (v, (m, a)) in vaults.iter().zip(&s.assets) {
            self.is(*v, a)?;
            let t = self.tok(*v, m)?;
            self.held_by(&t, &s.signer)?;
        }
        self.is(auth, &s.signer)?;
        Ok((mint, vaults, auth))
    }

    fn basket(&self, s: &PState, n: u64, up: bool, mode: Mode) -> R<Vec<i64>> {
        if mode == Mode::Custom {
            return crate::custom::basket(s, n, up);
        }
        if mode == Mode::Admin && s.paused().ok_or("malformed admin state")? {
            return Err("paused");
        }
        let (_, supply) = mint_of(self.pre, self.acc(1)?).unwrap();
        if supply == 0 {
            return Err("empty pool");
        }
        let mut q = vec![];
        for i in 0..s.assets.len() {
            let v = tok(self.pre, self.acc(2 + i)?).unwrap().amount;
            let x = v as u128 * n as u128;
            let y = if up { x / supply as u128 + (x % supply as u128 != 0) as u128 } else { x / supply as u128 };
            if y > i64::MAX as u128 {
                return Err("basket too large");
            }
            q.push(y as i64);
        }
        Ok(q)
    }

    pub fn fees(&self, s: &PState, n: u64, user: Idx, l: Idx, i: Idx, r: Idx) -> Fees {
        let mut f = fees_of(s.fee, n);
        if user == l {
            f = Fees { lqd: 0, init: 0, referrer: 0 };
        }
        if user == i {
            f.init = 0;
        }
        if user == r {
            f.referrer = 0;
        }
        f
    }

    pub fn want(&self, mode: Mode) -> Want {
        match Req::read(&self.ix.data) {
            None if mode == Mode::Admin => match self.admin() {
                Ok(s) => Want::Yes(s),
                Err(e) => Want::No(e),
            },
            None if mode == Mode::Custom => match crate::custom::foreign(&self.ix.data) {
                true => Want::Yes(self.pre.clone()),
                false => Want::No("refused by the pool's own handler"),
            },
            None => Want::No("not a pool request"),
            Some(None) => Want::No("malformed request"),
            Some(Some(q)) => {
                if let Req::Exec(Action::Create(n)) | Req::Exec(Action::Redeem(n)) = &q {
                    if let Ok(Some(s)) = self.state() {
                        if *n as u128 * s.fee as u128 / DENOM as u128 >= (1 << 63) {
                            return Want::Any; // beyond the fee arithmetic of the program
                        }
                    }
                }
                match self.request(&q, mode) {
                    Ok(Some(s)) => Want::Yes(s),
                    Ok(None) => Want::Any,
                    Err(e) => Want::No(e),
                }
            }
        }
    }

    fn request(&self, q: &Req, mode: Mode) -> R<Option<St>> {
        let s = self.state()?;
        match (s, q) {
            (None, Req::Init { nonce, n, name, fee, .. }) => self.init(*nonce, *n as usize, name, *fee, mode),
            (None, _) => Err("not initialized"),
            (Some(_), Req::Init { .. }) => Err("already initialized"),
            (Some(s), Req::Get(a)) => {
                self.common(&s)?;
                let at = 3 + s.assets.len();
                let (ra, rp) = (self.acc(at)?, self.acc(at + 1)?);
                if *self.pre.owner(ra) != self.key(rp) {
                    return Err("return buffer");
                }
                for (i, p) in s.params.iter().enumerate() {
                    self.is(self.acc(at + 2 + i)?, &p.0)?;
                }
                let b = match a {
                    Action::Create(n) => self.basket(&s, *n, true, mode)?,
                    Action::Redeem(n) => self.basket(&s, *n, false, mode)?,
                    Action::Swap(v) if mode == Mode::Custom => crate::custom::swap(&s, v)?,
                    Action::Swap(_) => return Err("no swaps"),
                };
                let mut d = vec![0u8; 8];
                d.extend_from_slice(&(b.len() as u32).to_le_bytes());
                for x in b {
                    d.extend_from_slice(&x.to_le_bytes());
                }
                let ix = Ix { prog: self.key(rp), data: d, accs: vec![ra], signers: vec![] };
                let (o, st) = self.w.exec(self.pre, &ix);
                if !o.ok() {
                    return Err("return buffer program refuses");
                }
                Ok(Some(st))
            }
            (Some(s), Req::Exec(a)) => {
                let (mint, vaults, auth) = self.common(&s)?;
                let n = s.assets.len();
                let at = 3 + n;
                let user = self.acc(at)?;
                let ua: Vec<Idx> = (0..n).map(|i| self.acc(at + 1 + i)).collect::<R<_>>()?;
                let who = self.acc(at + 1 + n)?;
                let (l, i, r) = (self.acc(at + 2 + n)?, self.acc(at + 3 + n)?, self.acc(at + 4 + n)?);
                self.tok(user, &s.mint)?;
                for (x, (m, _)) in ua.iter().zip(&s.assets) {
                    self.tok(*x, m)?;
                }
                self.is(l, &s.lqd)?;
                self.is(i, &s.init_fee)?;
                let t = self.tok(l, &s.mint)?;
                self.held_by(&t, &fee_owner())?;
                self.tok(i, &s.mint)?;
                self.tok(r, &s.mint)?;
                self.is(self.acc(at + 5 + n)?, &spl_token::ID)?;
                for (k, p) in s.params.iter().enumerate() {
                    self.is(self.acc(at + 6 + n + k)?, &p.0)?;
                }
                let mut st = self.pre.clone();
                let sg = &self.ix.signers;
                // the pool's own authority signs through the program
                let mut own = sg.clone();
                if pda(&[self.key(self.acc(0)?).as_ref(), &[s.nonce]], &self.ix.prog) == Some(s.signer) {
                    own.push(auth);
                }
                let pos = |x: i64| if x < 0 { Err("negative quantity") } else { Ok(x as u64) };
                let mut s = s;
                match a {
                    Action::Swap(v) if mode == Mode::Custom => {
                        let b = crate::custom::swap(&s, v)?;
                        for k in 0..n.min(b.len()) {
                            self.transfer(&mut st, ua[k], vaults[k], who, sg, b[k].max(0) as u64)?;
                        }
                        for k in 0..n.min(b.len()) {
                            self.transfer(&mut st, vaults[k], ua[k], auth, &own, (-b[k].min(0)) as u64)?;
                        }
                        crate::custom::bump(&mut s);
                    }
                    Action::Swap(_) => return Err("no swaps"),
                    Action::Create(_) | Action::Redeem(_) if s.fee < MIN_FEE || s.fee >= DENOM => return Err("fee rate out of range"),
                    Action::Create(size) => {
                        let b = self.basket(&s, *size, true, mode)?;
                        for k in 0..n {
                            self.transfer(&mut st, ua[k], vaults[k], who, sg, pos(b[k])?)?;
                        }
                        let f = self.fees(&s, *size, user, l, i, r);
                        for (to, x) in &[(l, f.lqd), (i, f.init), (r, f.referrer), (user, size - f.total())] {
                            if *x > 0 {
                                let mut d = vec![7u8];
                                d.extend_from_slice(&x.to_le_bytes());
                                self.token(&mut st, vec![mint, *to, auth], &own, d)?;
                            }
                        }
                        if mode == Mode::Custom {
                            crate::custom::bump(&mut s);
                        }
                    }
                    Action::Redeem(size) => {
                        let f = self.fees(&s, *size, user, l, i, r);
                        let net = size - f.total();
                        let b = self.basket(&s, net, false, mode)?;
                        for (to, x) in &[(l, f.lqd), (i, f.init), (r, f.referrer)] {
                            if *x > 0 {
                                self.transfer(&mut st, user, *to, who, sg, *x)?;
                            }
                        }
                        let mut d = vec![8u8];
                        d.extend_from_slice(&net.to_le_bytes());
                        self.token(&mut st, vec![user, mint, who], sg, d)?;
                        for k in 0..n {
                            self.transfer(&mut st, vaults[k], ua[k], auth, &own, pos(b[k])?)?;
                        }
                    }
                }
                // the state is recorded again
                let pool = self.acc(0)?;
                let b = s.bytes();
                let mut d = st.data(pool).to_vec();
                if d.len() < b.len() {
                    return Err("pool account too small");
                }
                d[..b.len()].copy_from_slice(&b);
                st.set(pool, d);
                Ok(Some(st))
            }
        }
    }

    fn init(&self, nonce: u8, n: usize, name: &[u8], fee: u32, mode: Mode) -> R<Option<St>> {
        let pool = self.acc(0)?;
        let mint = self.acc(1)?;
        let vaults: Vec<Idx> = (0..n).map(|i| self.acc(2 + i)).collect::<R<_>>()?;
        let (auth, l, i, rent) = (self.acc(2 + n)?, self.acc(3 + n)?, self.acc(4 + n)?, self.acc(5 + n)?);
        let signer = self.key(auth);
        let mut any = false;
        let (ma, _) = mint_of(self.pre, mint).ok_or("not a mint")?;
        if ma != Some(signer) {
            return Err("mint authority");
        }
        let mut assets = vec![];
        for (k, v) in vaults.iter().enumerate() {
            let t = tok(self.pre, *v).ok_or("not a token account")?;
            if t.owner != signer {
                if t.delegate == Some(signer) {
                    any = true; // a vault merely delegated to the pool: not specified
                } else {
                    return Err("vault authority");
                }
            }
            if vaults[..k].contains(v) {
                return Err("one vault for two assets");
            }
            assets.push((t.mint, self.key(*v)));
        }
        let pm = self.key(mint);
        let t = self.tok(l, &pm)?;
        if t.owner != fee_owner() || t.delegate.is_some() || !(t.close.is_none() || t.close == Some(signer)) {
            return Err("LQD fee vault");
        }
        self.tok(i, &pm)?;
        self.is(rent, &sysvar::rent::ID)?;
        for x in vaults.iter().chain([pool, mint, l, i].iter()) {
            let a = &self.pre.accs[*x as usize];
            if a.lam < Rent::default().minimum_balance(a.data.len()) {
                return Err("rent");
            }
        }
        let mut s = PState {
            mint: pm,
            assets,
            signer,
            nonce,
            params: vec![],
            name: name.to_vec(),
            lqd: self.key(l),
            init_fee: self.key(i),
            fee,
            admin: None,
            custom: vec![],
        };
        if mode == Mode::Admin {
            s.admin = Some(self.key(self.acc(6 + n)?));
            s.custom = custom(false);
        }
        if mode == Mode::Custom {
            crate::custom::setup(self, &mut s, &self.ix.accs[6 + n..])?;
        }
        if pda(&[self.key(pool).as_ref(), &[s.nonce]], &self.ix.prog) != Some(signer) {
            return Err("pool authority");
        }
        if s.fee < MIN_FEE || s.fee >= DENOM {
            return Err("fee rate");
        }
        let st = self.store(&s)?;
        Ok(if any { None } else { Some(st) })
    }

    fn store(&self, s: &PState) -> R<St> {
        let pool = self.acc(0)?;
        let b = s.bytes();
        let mut d = self.pre.data(pool).to_vec();
        if d.len() < b.len() {
            return Err("pool account too small");
        }
        d[..b.len()].copy_from_slice(&b);
        let mut st = self.pre.clone();
        st.set(pool, d);
        Ok(st)
    }

    fn admin(&self) -> R<St> {
        let s = self.state()?.ok_or("not initialized")?;
        let a = self.acc(1)?;
        if s.admin != Some(self.key(a)) || !self.ix.signers.contains(&a) {
            return Err("admin");
        }
        let q = Adm::read(&self.ix.data).ok_or("malformed")?;
        let mut paused = s.paused().ok_or("malformed admin state")?;
        let mut s = s;
        let mut then: Option<(Idx, Idx, Idx, u64)> = None;
        match q {
            Adm::Pause => paused = true,
            Adm::Unpause => {
                for (k, (_, v)) in s.assets.iter().enumerate() {
                    let i = self.acc(2 + k)?;
                    self.is(i, v)?;
                    let t = tok(self.pre, i).ok_or("not a token account")?;
                    if t.delegate.is_some() && t.delegated > 0 {
                        return Err("delegated");
                    }
                }
                paused = false;
            }
            Adm::Approve(n) => {
                let (v, d, sg, tp) = (self.acc(2)?, self.acc(3)?, self.acc(4)?, self.acc(5)?);
                if !s.assets.iter().any(|x| x.1 == self.key(v)) {
                    return Err("no such asset");
                }
                self.is(sg, &s.signer)?;
                self.is(tp, &spl_token::ID)?;
                paused = true;
                then = Some((v, d, sg, n));
            }
            Adm::Add => {
                let v = self.acc(2)?;
                let t = tok(self.pre, v).ok_or("not a token account")?;
                if s.assets.iter().any(|x| x.1 == self.key(v) || x.0 == t.mint) {
                    return Err("already an asset");
                }
                if t.owner != s.signer {
                    return Err("vault owner");
                }
                if !paused && t.delegate.is_some() && t.delegated > 0 {
                    return Err("adding a delegated vault to a running pool");
                }
                s.assets.push((t.mint, self.key(v)));
            }
            Adm::Remove => {
                let v = self.acc(2)?;
                let t = tok(self.pre, v).ok_or("not a token account")?;
                if t.amount > 0 {
                    return Err("vault not empty");
                }
                let n = s.assets.len();
                let k = self.key(v);
                s.assets.retain(|x| x.1 != k);
                if n == s.assets.len() {
                    return Err("no such asset");
                }
            }
            Adm::Fee(f) => {
                if f < MIN_FEE || f >= DENOM {
                    return Err("fee rate");
                }
                s.fee = f;
            }
            Adm::Admin => {
                let n = self.acc(2)?;
                if !self.ix.signers.contains(&n) {
                    return Err("new admin must sign");
                }
                s.admin = Some(self.key(n));
            }
        }
        s.custom = custom(paused);
        let mut st = self.store(&s)?;
        if let Some((v, d, sg, n)) = then {
            let mut x = vec![4u8];
            x.extend_from_slice(&n.to_le_bytes());
            let mut own = self.ix.signers.clone();
            if pda(&[self.key(self.acc(0)?).as_ref(), &[s.nonce]], &self.ix.prog) == Some(s.signer) {
                own.push(sg);
            }
            self.token(&mut st, vec![v, d, sg], &own, x)?;
        }
        Ok(st)
    }
}

// ---------------------------------------------------------------- judging

fn diff(w: &World, want: &St, got: &St) -> Vec<(Idx, String)> {
    let mut o = vec![];
    for i in 0..want.accs.len() {
        let (a, b) = (&want.accs[i], &got.accs[i]);
        if a != b {
            let n = w.name(i as Idx);
            let m = match (tok(want, i as Idx), tok(got, i as Idx), mint_of(want, i as Idx), mint_of(got, i as Idx)) {
                (Some(x), Some(y), _, _) => {
                    if x.amount != y.amount {
                        format!("{} holds {} instead of {}", n, y.amount, x.amount)
                    } else {
                        format!("{} is {:?} instead of {:?}", n, y, x)
                    }
                }
                (_, _, Some(x), Some(y)) => format!("{} has supply {} instead of {}", n, y.1, x.1),
                _ => match (PState::read(&a.data), PState::read(&b.data)) {
                    (Some(x), Some(y)) if x != y => format!("{} records {:?} instead of {:?}", n, y, x),
                    _ => format!("{} differs (lamports {} / {}, data {})", n, b.lam, a.lam, a.data == b.data),
                },
            };
            o.push((i as Idx, m));
        }
    }
    o
}

/// who may change in what way, whatever the amounts: used for the aspect of an account
#[derive(Clone, Default)]
pub struct Roles {
    pub fee: Vec<Idx>,
    pub pools: Vec<Idx>,
    pub retbufs: Vec<Idx>,
}

pub fn judge_pool(w: &World, roles: &Roles, pre: &St, ix: &Ix, kind: &'static str, out: &Out, post: &St) -> Vec<Finding> {
    let mut f: Vec<Finding> = vec![];
    let admin = ix.prog == admin_id();
    let mode = if admin {
        Mode::Admin
    } else if ix.prog == simple_id() {
        Mode::Simple
    } else if ix.prog == custom_id() {
        Mode::Custom
    } else {
        return f; // somebody else's transaction (token transfers)
    };
    let sp = Spec { w, pre, ix };
    match (sp.want(mode), out.ok()) {
        (Want::Any, _) => (),
        (Want::Yes(_), false) => f.push(("result", format!("refused ({:?}) although it is legitimate", out))),
        (Want::No(e), true) => f.push(("result", format!("accepted although it must be refused ({})", e))),
        (Want::No(_), false) => (),
        (Want::Yes(s), true) => {
            for (i, m) in diff(w, &s, post) {
                let a = if roles.retbufs.contains(&i) {
                    "quote"
                } else if roles.pools.contains(&i) {
                    "state"
                } else if roles.fee.contains(&i) {
                    "fees"
                } else {
                    "tokens"
                };
                f.push((a, m));
            }
        }
    }
    if !out.ok() {
        return f;
    }
    // independent of the specification above
    if let (Some(&pool), Some(Some(q))) = (ix.accs.get(0), Req::read(&ix.data)) {
        if let (Some(s), Req::Exec(a)) = (PState::read(pre.data(pool)), &q) {
            let n = s.assets.len();
            if let (Some(m), true) = (w.idx(&s.mint), ix.accs.len() >= 9 + 2 * n) {
                let (s0, s1) = (mint_of(pre, m).map_or(0, |x| x.1), mint_of(post, m).map_or(0, |x| x.1));
                let mut moved = vec![];
                for (k, (_, v)) in s.assets.iter().enumerate() {
                    let v = match w.idx(v) {
                        Some(v) => v,
                        None => continue,
                    };
                    let (a0, a1) = (tok(pre, v).map_or(0, |t| t.amount), tok(post, v).map_or(0, |t| t.amount));
                    if mode != Mode::Custom && (a1 as u128) * (s0 as u128) < (a0 as u128) * (s1 as u128) {
                        f.push(("value", format!("{} per pool token fell: {} for {} tokens, now {} for {}", w.name(v), a0, s0, a1, s1)));
                    }
                    let u = ix.accs[4 + n + k];
                    let (u0, u1) = (tok(pre, u).map_or(0, |t| t.amount), tok(post, u).map_or(0, |t| t.amount));
                    if u != v && (a1 as i128 - a0 as i128) != -(u1 as i128 - u0 as i128) {
                        f.push(("value", format!("{} changed by {} but the user's account by {}", w.name(v), a1 as i128 - a0 as i128, u1 as i128 - u0 as i128)));
                    }
                    moved.push(if u == v { None } else { Some((a1 as i128 - a0 as i128).abs() as u64) });
                }
                // every unit of the pool token is accounted for
                let (ut, fa): (Idx, Vec<Idx>) = (ix.accs[3 + n], ix.accs[5 + 2 * n..8 + 2 * n].to_vec());
                let mut all = vec![ut];
                for x in fa {
                    if !all.contains(&x) {
                        all.push(x);
                    }
                }
                let sum = |st: &St| all.iter().map(|i| tok(st, *i).map_or(0, |t| t.amount) as i128).sum::<i128>();
                if sum(post) - sum(pre) != s1 as i128 - s0 as i128 {
                    f.push(("value", format!("supply changed by {} but the holders' balances by {}", s1 as i128 - s0 as i128, sum(post) - sum(pre))));
                }
                // the quote for the same request
                if let (Some(ra), Some(rp)) = (roles.retbufs.first(), w.idx(&retbuf_id())) {
                    let act = match a {
                        Action::Create(x) => Action::Create(*x),
                        Action::Redeem(x) => {
                            let fe = sp.fees(&s, *x, ut, ix.accs[5 + 2 * n], ix.accs[6 + 2 * n], ix.accs[7 + 2 * n]);
                            Action::Redeem(x.saturating_sub(fe.total()))
                        }
                        x => x.clone(),
                    };
                    let mut accs = ix.accs[..3 + n].to_vec();
                    accs.push(*ra);
                    accs.push(rp);
                    accs.extend(s.params.iter().filter_map(|p| w.idx(&p.0)));
                    let (o, st) = w.exec(pre, &Ix { prog: ix.prog, data: Req::Get(act).bytes(), accs, signers: vec![] });
                    if !o.ok() {
                        f.push(("quote", format!("executed although the quote is refused ({:?})", o)));
                    } else {
                        let d = st.data(*ra);
                        for (k, mv) in moved.iter().enumerate() {
                            let given = Rd(d).u32().unwrap_or(0) as usize;
                            let q = if k < given { (Rd(&d[4 + 8 * k..]).u64().unwrap_or(0) as i64).wrapping_abs() as u64 } else { 0 };
                            if let Some(mv) = mv {
                                if q != *mv {
                                    f.push(("quote", format!("quoted {} of asset {} but moved {}", q, k, mv)));
                                }
                            }
                        }
                        for (i, (x, y)) in st.accs.iter().zip(&pre.accs).enumerate() {
                            if x != y && i as Idx != *ra {
                                f.push(("quote", format!("a quote modified {}", w.name(i as Idx))));
                            }
                        }
                    }
                }
            }
        }
    }
    // an unpaused pool never has delegated assets
    if admin {
        for &p in &roles.pools {
            if *post.owner(p) != admin_id() || pre == post {
                continue;
            }
            if let Some(s) = PState::read(post.data(p)) {
                if s.paused() == Some(false) {
                    for (_, v) in &s.assets {
                        if let Some(t) = w.idx(v).and_then(|i| tok(post, i)) {
                            if t.owner == s.signer && t.delegate.is_some() && t.delegated > 0 {
                                f.push(("delegate", format!("[{}] the pool is not paused although {} of an asset vault are delegated", kind, t.delegated)));
                            }
                        }
                    }
                }
            }
        }
    }
    f
}
