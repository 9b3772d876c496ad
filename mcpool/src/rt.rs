//! A small Solana-like runtime: transactions run the real programs, calls between programs are
//! dispatched to the real token program, order book and pools, and the runtime's own rules
//! (privileges, ownership of data and lamports, atomicity, derived signers) are enforced.
use solana_program::{
    account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult, instruction::Instruction, program_error::ProgramError, program_pack::Pack,
    program_stubs, pubkey::Pubkey, rent::Rent, system_instruction::SystemInstruction, system_program, sysvar,
};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

pub type Idx = u16;

#[derive(Clone, PartialEq, Eq)]
pub struct Acc {
    pub owner: Pubkey,
    pub lam: u64,
    pub data: Arc<Vec<u8>>,
}
#[derive(Clone, PartialEq, Eq)]
pub struct St {
    pub accs: Vec<Acc>,
}
impl St {
    pub fn hash(&self) -> u128 {
        let mut h = Hasher2::new();
        for a in &self.accs {
            h.bytes(a.owner.as_ref());
            h.word(a.lam);
            h.word(a.data.len() as u64);
            h.bytes(&a.data);
        }
        h.fin()
    }
    pub fn data(&self, i: Idx) -> &[u8] {
        &self.accs[i as usize].data
    }
    pub fn owner(&self, i: Idx) -> &Pubkey {
        &self.accs[i as usize].owner
    }
    pub fn set(&mut self, i: Idx, d: Vec<u8>) {
        self.accs[i as usize].data = Arc::new(d);
    }
}

/// 128-bit non-cryptographic hash (two independent folded-multiply lanes).
pub struct Hasher2 {
    a: u64,
    b: u64,
}
impl Hasher2 {
    pub fn new() -> Self {
        Hasher2 { a: 0x9E37_79B9_7F4A_7C15, b: 0xD1B5_4A32_D192_ED03 }
    }
    #[inline(always)]
    pub fn word(&mut self, w: u64) {
        let m = (self.a ^ w) as u128 * 0x9FB2_1C65_1E98_DF25u128;
        self.a = (m as u64) ^ ((m >> 64) as u64);
        let m = (self.b.rotate_left(23) ^ w) as u128 * 0xA24B_AED4_963E_E407u128;
        self.b = (m as u64).wrapping_add((m >> 64) as u64).wrapping_add(0x632B_E59B_D9B4_E019);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        let mut c = b.chunks_exact(8);
        let mut zeros = 0u64;
        for x in &mut c {
            let w = u64::from_le_bytes([x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]]);
            if w == 0 {
                zeros += 1;
            } else {
                if zeros != 0 {
                    self.word(zeros ^ 0x5555_0000_0000_0000);
                    zeros = 0;
                }
                self.word(w);
            }
        }
        self.word(zeros ^ 0x5555_0000_0000_0000);
        let mut t = [0u8; 8];
        t[..c.remainder().len()].copy_from_slice(c.remainder());
        self.word(u64::from_le_bytes(t));
    }
    pub fn fin(mut self) -> u128 {
        self.word(0x1234);
        self.word(0x5678);
        ((self.a as u128) << 64) | self.b as u128
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ix {
    pub prog: Pubkey,
    pub data: Vec<u8>,
    pub accs: Vec<Idx>,
    pub signers: Vec<Idx>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Ok,
    Err(String),
    Panic,
}
impl Out {
    pub fn ok(&self) -> bool {
        matches!(self, Out::Ok)
    }
}

#[derive(Clone)]
struct Snap {
    lam: u64,
    owner: Pubkey,
    data: Vec<u8>,
}
struct Frame {
    prog: Pubkey,
    privs: HashMap<Pubkey, (bool, bool)>, // signer, writable
    snap: HashMap<Pubkey, Snap>,
}

/// the accounts of the running transaction
struct Live {
    key: Pubkey,
    owner: *mut Pubkey,
    lam: *mut u64,
    data: *mut u8,
    cap: usize,
    /// the length the runtime knows; a program may shorten its own slice by writing through it
    len: Cell<usize>,
}

const ROOM: usize = 4096;

thread_local! {
    static FRAMES: RefCell<Vec<Frame>> = RefCell::new(vec![]);
    static LIVE: RefCell<Vec<Live>> = RefCell::new(vec![]);
    static BROKEN: Cell<bool> = Cell::new(false);
    static PDA: RefCell<HashMap<(Vec<u8>, Pubkey), Option<Pubkey>>> = RefCell::new(HashMap::new());
    static FIND: RefCell<HashMap<(Vec<u8>, Pubkey), (Pubkey, u8)>> = RefCell::new(HashMap::new());
    static QUIET: Cell<bool> = Cell::new(false);
}

fn flat(seeds: &[&[u8]]) -> Vec<u8> {
    let mut f = vec![];
    for s in seeds {
        f.push(s.len() as u8);
        f.extend_from_slice(s);
    }
    f
}
pub fn pda(seeds: &[&[u8]], prog: &Pubkey) -> Option<Pubkey> {
    PDA.with(|c| *c.borrow_mut().entry((flat(seeds), *prog)).or_insert_with(|| Pubkey::create_program_address(seeds, prog).ok()))
}
pub fn find_pda(seeds: &[&[u8]], prog: &Pubkey) -> (Pubkey, u8) {
    FIND.with(|c| *c.borrow_mut().entry((flat(seeds), *prog)).or_insert_with(|| Pubkey::find_program_address(seeds, prog)))
}

/// what happened during a transaction, when somebody asked for it
#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ev {
    Call(Pubkey, Vec<u8>, Vec<(Pubkey, bool, bool)>),
    Hook(u8, &'static str, Vec<u8>),
    Back(Pubkey, Vec<Pubkey>, Vec<u8>, Vec<u8>),
}
thread_local! { static LOG: RefCell<Option<Vec<Ev>>> = RefCell::new(None); }
pub fn log_start() {
    LOG.with(|l| *l.borrow_mut() = Some(vec![]));
}
pub fn log_take() -> Vec<Ev> {
    LOG.with(|l| l.borrow_mut().take()).unwrap_or_default()
}
pub fn note(e: Ev) {
    LOG.with(|l| {
        if let Some(l) = l.borrow_mut().as_mut() {
            l.push(e)
        }
    });
}

struct Stubs;
impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let c = Clock { unix_timestamp: 1_000, ..Clock::default() };
        unsafe { std::ptr::write_unaligned(p as *mut Clock, c) };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { std::ptr::write_unaligned(p as *mut Rent, Rent::default()) };
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let r = invoke(ix, infos, seeds);
        if r.is_err() {
            // a failed call aborts the whole transaction
            BROKEN.with(|c| c.set(true));
        }
        r
    }
}

fn snap_of(i: &AccountInfo) -> Snap {
    // the program may hold a borrow of its own view; read the memory itself
    let (mut d, mut lam, mut owner) = (vec![], 0, *i.owner);
    LIVE.with(|l| {
        if let Some(a) = l.borrow().iter().find(|a| a.key == *i.key) {
            unsafe {
                d = std::slice::from_raw_parts(a.data, a.len.get()).to_vec();
                lam = *a.lam;
                owner = *a.owner;
            }
        }
    });
    Snap { lam, owner, data: d }
}

/// what the program of frame `f` did since its snapshot must be within its rights
fn verify(f: &Frame, infos: &[AccountInfo]) -> Result<(), &'static str> {
    let (mut s0, mut s1) = (0u128, 0u128);
    let mut seen = vec![];
    for i in infos {
        if seen.contains(i.key) {
            continue;
        }
        seen.push(*i.key);
        let b = match f.snap.get(i.key) {
            Some(b) => b,
            None => continue,
        };
        let a = snap_of(i);
        let w = f.privs.get(i.key).map_or(false, |p| p.1);
        s0 += b.lam as u128;
        s1 += a.lam as u128;
        let dc = a.data != b.data;
        if (dc || a.lam != b.lam || a.owner != b.owner) && !w {
            return Err("readonly account modified");
        }
        if dc && b.owner != f.prog {
            return Err("foreign account data modified");
        }
        if a.lam < b.lam && b.owner != f.prog {
            return Err("foreign lamports spent");
        }
        if a.owner != b.owner && (b.owner != f.prog || a.data.iter().any(|x| *x != 0)) {
            return Err("illegal owner change");
        }
        if a.data.len() != b.data.len() && f.prog != system_program::ID {
            return Err("illegal resize");
        }
    }
    if s0 != s1 {
        return Err("lamports not conserved");
    }
    Ok(())
}

fn snaps(infos: &[AccountInfo]) -> HashMap<Pubkey, Snap> {
    let mut m = HashMap::new();
    for i in infos {
        m.entry(*i.key).or_insert_with(|| snap_of(i));
    }
    m
}

fn run_frame(prog: &Pubkey, privs: HashMap<Pubkey, (bool, bool)>, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let snap = snaps(infos);
    let depth = FRAMES.with(|f| {
        let mut f = f.borrow_mut();
        f.push(Frame { prog: *prog, privs, snap });
        f.len()
    });
    if depth > 4 {
        return Err(ProgramError::Custom(0xdead_0005));
    }
    dispatch(prog, infos, data)?;
    let f = FRAMES.with(|f| f.borrow_mut().pop()).unwrap();
    verify(&f, infos).map_err(|e| { if std::env::var("MC_DBG").is_ok() { eprintln!("{} in {}", e, f.prog); } ProgramError::Custom(0xdead_0006) })
}

fn invoke(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    // the caller's own changes so far
    let (caller, callee, v) = FRAMES.with(|f| -> Result<_, ProgramError> {
        let f = f.borrow();
        let f = f.last().unwrap();
        verify(f, infos).map_err(|_| ProgramError::Custom(0xdead_0007))?;
        if !f.privs.contains_key(&ix.program_id) {
            return Err(ProgramError::Custom(0xdead_0001));
        }
        let signed: Vec<Pubkey> = seeds.iter().filter_map(|s| pda(s, &f.prog)).collect();
        let mut callee: HashMap<Pubkey, (bool, bool)> = HashMap::new();
        for m in &ix.accounts {
            let p = *f.privs.get(&m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
            if m.is_signer && !(p.0 || signed.contains(&m.pubkey)) {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if m.is_writable && !p.1 {
                return Err(ProgramError::Custom(0xdead_0002));
            }
            let e = callee.entry(m.pubkey).or_insert((false, false));
            e.0 |= m.is_signer;
            e.1 |= m.is_writable;
        }
        let mut v = vec![];
        for m in &ix.accounts {
            let i = infos.iter().find(|i| *i.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
            let mut c = i.clone();
            let p = callee[&m.pubkey];
            c.is_signer = p.0;
            c.is_writable = p.1;
            v.push(c);
        }
        Ok((f.prog, callee, v))
    })?;
    // re-entering a program other than directly is forbidden
    let reentrant = FRAMES.with(|f| f.borrow().iter().any(|x| x.prog == ix.program_id)) && caller != ix.program_id;
    if reentrant {
        return Err(ProgramError::Custom(0xdead_0003));
    }
    LOG.with(|l| {
        if let Some(l) = l.borrow_mut().as_mut() {
            if FRAMES.with(|f| f.borrow().len()) == 1 {
                l.push(Ev::Call(ix.program_id, ix.data.clone(), ix.accounts.iter().map(|m| (m.pubkey, m.is_signer, m.is_writable)).collect()));
            }
        }
    });
    let mut callee = callee;
    callee.entry(ix.program_id).or_insert((false, false));
    run_frame(&ix.program_id, callee, &v, &ix.data)?;
    // what the callee did is not the caller's doing
    FRAMES.with(|f| {
        let mut f = f.borrow_mut();
        let f = f.last_mut().unwrap();
        for i in infos {
            f.snap.insert(*i.key, snap_of(i));
        }
    });
    Ok(())
}

fn resize(i: &AccountInfo, len: usize) -> ProgramResult {
    LIVE.with(|l| {
        let l = l.borrow();
        let a = l.iter().find(|a| a.key == *i.key).ok_or(ProgramError::NotEnoughAccountKeys)?;
        if len > a.cap {
            return Err(ProgramError::InvalidArgument);
        }
        unsafe {
            a.len.set(len);
            std::ptr::write_bytes(a.data, 0, len);
            *i.try_borrow_mut_data()? = std::slice::from_raw_parts_mut(a.data, len);
        }
        Ok(())
    })
}
fn assign(i: &AccountInfo, owner: &Pubkey) {
    LIVE.with(|l| {
        if let Some(a) = l.borrow().iter().find(|a| a.key == *i.key) {
            unsafe { *a.owner = *owner };
        }
    });
}

/// the parts of the system program that matter
fn system(infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let e = ProgramError::InvalidInstructionData;
    let u = |o: usize| -> Result<u64, ProgramError> { data.get(o..o + 8).map(|b| u64::from_le_bytes([b[0], b[1], b[2], b[3], b[4], b[5], b[6], b[7]])).ok_or(ProgramError::InvalidInstructionData) };
    let key = |o: usize| -> Result<Pubkey, ProgramError> { data.get(o..o + 32).map(Pubkey::new).ok_or(ProgramError::InvalidInstructionData) };
    let acc = |n: usize| infos.get(n).ok_or(ProgramError::NotEnoughAccountKeys);
    let signer = |a: &AccountInfo| if a.is_signer { Ok(()) } else { Err(ProgramError::MissingRequiredSignature) };
    let transfer = |from: &AccountInfo, to: &AccountInfo, n: u64| -> ProgramResult {
        signer(from)?;
        if *from.owner != system_program::ID || from.data_len() != 0 || from.lamports() < n {
            return Err(ProgramError::InsufficientFunds);
        }
        **from.try_borrow_mut_lamports()? -= n;
        **to.try_borrow_mut_lamports()? += n;
        Ok(())
    };
    let allocate = |a: &AccountInfo, n: u64| -> ProgramResult {
        signer(a)?;
        if *a.owner != system_program::ID || a.data_len() != 0 {
            return Err(ProgramError::AccountAlreadyInitialized);
        }
        resize(a, n as usize)
    };
    let _ = SystemInstruction::Allocate { space: 0 };
    match data.get(..4).ok_or(e)? {
        [0, 0, 0, 0] => {
            let (lam, space, owner) = (u(4)?, u(12)?, key(20)?);
            let a = acc(1)?;
            if a.lamports() > 0 {
                return Err(ProgramError::AccountAlreadyInitialized);
            }
            allocate(a, space)?;
            assign(a, &owner);
            transfer(acc(0)?, a, lam)
        }
        [1, 0, 0, 0] => {
            let a = acc(0)?;
            signer(a)?;
            if *a.owner != system_program::ID {
                return Err(ProgramError::IllegalOwner);
            }
            assign(a, &key(4)?);
            Ok(())
        }
        [2, 0, 0, 0] => transfer(acc(0)?, acc(1)?, u(4)?),
        [8, 0, 0, 0] => allocate(acc(0)?, u(4)?),
        _ => Err(ProgramError::InvalidInstructionData),
    }
}

fn prog_id(n: u8) -> Pubkey {
    Pubkey::new(&[n; 32])
}
pub fn simple_id() -> Pubkey {
    prog_id(201)
}
pub fn admin_id() -> Pubkey {
    prog_id(202)
}
pub fn proxy_id() -> Pubkey {
    prog_id(203)
}
pub fn proxy2_id() -> Pubkey {
    prog_id(204)
}
pub fn retbuf_id() -> Pubkey {
    prog_id(205)
}
pub fn owner_id() -> Pubkey {
    prog_id(206)
}
pub fn probe_id() -> Pubkey {
    prog_id(207)
}
pub fn note_id() -> Pubkey {
    prog_id(208)
}
pub fn custom_id() -> Pubkey {
    prog_id(209)
}
pub fn helper_id() -> Pubkey {
    prog_id(210)
}
pub fn codec_id() -> Pubkey {
    prog_id(211)
}
pub fn dex_id() -> Pubkey {
    anchor_spl::dex::ID
}
pub fn referral() -> Pubkey {
    mk_key(50, 1)
}

fn dispatch(prog: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    if *prog == spl_token::ID {
        spl_token::processor::Processor::process(prog, infos, data)
    } else if *prog == system_program::ID {
        system(infos, data)
    } else if *prog == dex_id() {
        serum_dex::state::State::process(prog, infos, data).map_err(|e| e.into())
    } else if *prog == simple_id() {
        p_simple::run(prog, infos, data)
    } else if *prog == admin_id() {
        p_admin::run(prog, infos, data)
    } else if *prog == owner_id() {
        p_owner::run(prog, infos, data)
    } else if *prog == proxy_id() || *prog == proxy2_id() {
        use serum_dex_permissioned::*;
        MarketProxy::new()
            .middleware(&mut OpenOrdersPda::new())
            .middleware(&mut ReferralFees::new(referral()))
            .middleware(&mut Logger)
            .run(prog, infos, data)
    } else if *prog == probe_id() {
        crate::mw::entry(prog, infos, data)
    } else if *prog == note_id() {
        // does nothing, or fails when told to
        if data.first() == Some(&1) {
            Err(ProgramError::Custom(77))
        } else {
            Ok(())
        }
    } else if *prog == codec_id() {
        crate::codec::entry(prog, infos, data)
    } else if *prog == custom_id() {
        crate::custom::entry(prog, infos, data)
    } else if *prog == retbuf_id() {
        let a = infos.get(0).ok_or(ProgramError::NotEnoughAccountKeys)?;
        if data.len() < 8 {
            return Err(ProgramError::InvalidInstructionData);
        }
        let mut o = [0u8; 8];
        o.copy_from_slice(&data[..8]);
        let o = u64::from_le_bytes(o) as usize;
        let mut d = a.try_borrow_mut_data()?;
        let n = data.len() - 8;
        if o > d.len() || d.len() - o < n {
            return Err(ProgramError::AccountDataTooSmall);
        }
        d[o..o + n].copy_from_slice(&data[8..]);
        Ok(())
    } else {
        Err(ProgramError::IncorrectProgramId)
    }
}

pub fn install() {
    program_stubs::set_syscall_stubs(Box::new(Stubs));
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.with(|q| q.get()) {
            prev(i)
        }
    }));
}

pub fn mk_key(tag: u64, n: u64) -> Pubkey {
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&(tag * 1_000_003 + n).to_le_bytes());
    b[8..16].copy_from_slice(&(0xfeed_0000 + tag).to_le_bytes());
    b[16..24].copy_from_slice(&(n.wrapping_mul(0x9E37_79B9_7F4A_7C15)).to_le_bytes());
    b[24..32].copy_from_slice(&0x5eed_5eed_5eed_5eedu64.to_le_bytes());
    Pubkey::new(&b)
}

/// the fixed universe of accounts
#[derive(Clone)]
pub struct World {
    pub keys: Vec<Pubkey>,
    pub names: Vec<String>,
    pub by_key: HashMap<Pubkey, Idx>,
    /// programs and sysvars: passed read-only
    pub fixed: Vec<Idx>,
    /// ordinary accounts which requests name as read-only
    pub ro: Vec<Idx>,
    pub st: St,
    /// what already went wrong while the world was set up
    pub broken: Vec<(&'static str, String)>,
}

impl World {
    pub fn new() -> Self {
        World { keys: vec![], names: vec![], by_key: HashMap::new(), fixed: vec![], ro: vec![], st: St { accs: vec![] }, broken: vec![] }
    }
    pub fn add(&mut self, name: &str, key: Pubkey, owner: Pubkey, lam: u64, data: Vec<u8>) -> Idx {
        let i = self.keys.len() as Idx;
        assert!(self.by_key.insert(key, i).is_none(), "{}", name);
        self.keys.push(key);
        self.names.push(name.to_string());
        self.st.accs.push(Acc { owner, lam, data: Arc::new(data) });
        i
    }
    pub fn program(&mut self, name: &str, key: Pubkey) -> Idx {
        let i = self.add(name, key, solana_program::bpf_loader::ID, 1, vec![]);
        self.fixed.push(i);
        i
    }
    pub fn rent(&mut self) -> Idx {
        let r = Rent::default();
        let mut d = vec![];
        d.extend_from_slice(&r.lamports_per_byte_year.to_le_bytes());
        d.extend_from_slice(&r.exemption_threshold.to_le_bytes());
        d.push(r.burn_percent);
        let i = self.add("rent", sysvar::rent::ID, sysvar::ID, 1, d);
        self.fixed.push(i);
        i
    }
    pub fn wallet(&mut self, name: &str, key: Pubkey) -> Idx {
        self.add(name, key, system_program::ID, 10_000_000_000, vec![])
    }
    pub fn token(&mut self, name: &str, key: Pubkey, mint: Pubkey, owner: Pubkey, bal: u64) -> Idx {
        self.add(name, key, spl_token::ID, 10_000_000_000, token_data(&mint, &owner, bal))
    }
    pub fn mint(&mut self, name: &str, key: Pubkey, auth: Option<Pubkey>, supply: u64) -> Idx {
        self.add(name, key, spl_token::ID, 10_000_000_000, mint_data(auth, supply))
    }
    pub fn key(&self, i: Idx) -> Pubkey {
        self.keys[i as usize]
    }
    pub fn idx(&self, k: &Pubkey) -> Option<Idx> {
        self.by_key.get(k).copied()
    }
    pub fn writable(&self, i: Idx) -> bool {
        !self.fixed.contains(&i) && !self.ro.contains(&i)
    }
    pub fn name(&self, i: Idx) -> &str {
        &self.names[i as usize]
    }

    /// runs one transaction; the result state equals `pre` when it is refused
    pub fn exec(&self, pre: &St, ix: &Ix) -> (Out, St) {
        let _b = watch::busy(ix);
        let mut uniq: Vec<Idx> = vec![];
        for &i in &ix.accs {
            if !uniq.contains(&i) {
                uniq.push(i);
            }
        }
        let mut lam: Vec<Box<u64>> = vec![];
        let mut own: Vec<Box<Pubkey>> = vec![];
        let mut buf: Vec<Vec<u64>> = vec![];
        let mut len: Vec<usize> = vec![];
        for &i in &uniq {
            let a = &pre.accs[i as usize];
            lam.push(Box::new(a.lam));
            own.push(Box::new(a.owner));
            let n = a.data.len();
            let cap = if n == 0 && a.owner == system_program::ID { ROOM } else { n };
            let mut b = vec![0u64; cap / 8 + 1];
            unsafe { std::ptr::copy_nonoverlapping(a.data.as_ptr(), b.as_mut_ptr() as *mut u8, n) };
            buf.push(b);
            len.push(n);
        }
        let mut lens = len.clone();
        let res = {
            let mut live = vec![];
            let mut infos: Vec<AccountInfo> = vec![];
            let mut privs = HashMap::new();
            for (n, &i) in uniq.iter().enumerate() {
                let cap = if len[n] == 0 && *own[n] == system_program::ID { ROOM } else { len[n] };
                let l = Live { key: self.keys[i as usize], owner: &mut *own[n], lam: &mut *lam[n], data: buf[n].as_mut_ptr() as *mut u8, cap, len: Cell::new(len[n]) };
                let (signer, writable) = (ix.signers.contains(&i), self.writable(i));
                privs.insert(l.key, (signer, writable));
                let (d, lm, ow) = unsafe { (std::slice::from_raw_parts_mut(l.data, len[n]), &mut *l.lam, &*l.owner) };
                infos.push(AccountInfo::new(&self.keys[i as usize], signer, writable, lm, d, ow, self.fixed.contains(&i), 0));
                live.push(l);
            }
            privs.entry(ix.prog).or_insert((false, false));
            let all: Vec<AccountInfo> = ix.accs.iter().map(|i| infos[uniq.iter().position(|j| j == i).unwrap()].clone()).collect();
            LIVE.with(|l| *l.borrow_mut() = live);
            FRAMES.with(|f| f.borrow_mut().clear());
            BROKEN.with(|b| b.set(false));
            QUIET.with(|q| q.set(true));
            let r = catch_unwind(AssertUnwindSafe(|| run_frame(&ix.prog, privs, &all, &ix.data)));
            QUIET.with(|q| q.set(false));
            LIVE.with(|l| {
                let mut l = l.borrow_mut();
                for (n, a) in l.iter().enumerate() {
                    lens[n] = a.len.get();
                }
                l.clear();
            });
            r
        };
        match res {
            Err(_) => return (Out::Panic, pre.clone()),
            Ok(Err(e)) => return (Out::Err(format!("{:?}", e)), pre.clone()),
            Ok(Ok(())) => (),
        }
        if BROKEN.with(|b| b.get()) {
            return (Out::Err("a call failed".into()), pre.clone());
        }
        let mut post = pre.clone();
        for (n, &i) in uniq.iter().enumerate() {
            let d = unsafe { std::slice::from_raw_parts(buf[n].as_ptr() as *const u8, lens[n]) };
            let a = &mut post.accs[i as usize];
            a.lam = *lam[n];
            a.owner = *own[n];
            if a.data.as_slice() != d {
                a.data = Arc::new(d.to_vec());
            }
            if a.lam == 0 && (a.owner != system_program::ID || !a.data.is_empty()) {
                // an account without lamports is gone when the transaction ends
                a.owner = system_program::ID;
                a.data = Arc::new(vec![]);
            }
        }
        (Out::Ok, post)
    }
}

pub fn token_data(mint: &Pubkey, owner: &Pubkey, bal: u64) -> Vec<u8> {
    let mut d = vec![0u8; spl_token::state::Account::LEN];
    let mut a = spl_token::state::Account::default();
    a.mint = *mint;
    a.owner = *owner;
    a.amount = bal;
    a.state = spl_token::state::AccountState::Initialized;
    spl_token::state::Account::pack(a, &mut d).unwrap();
    d
}
pub fn mint_data(auth: Option<Pubkey>, supply: u64) -> Vec<u8> {
    let mut d = vec![0u8; spl_token::state::Mint::LEN];
    let mut m = spl_token::state::Mint::default();
    m.is_initialized = true;
    m.supply = supply;
    m.mint_authority = auth.into();
    spl_token::state::Mint::pack(m, &mut d).unwrap();
    d
}

/// raw views of token accounts and mints
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Tok {
    pub mint: Pubkey,
    pub owner: Pubkey,
    pub amount: u64,
    pub delegate: Option<Pubkey>,
    pub delegated: u64,
    pub close: Option<Pubkey>,
}
fn le(b: &[u8]) -> u64 {
    let mut x = [0u8; 8];
    x.copy_from_slice(&b[..8]);
    u64::from_le_bytes(x)
}
pub fn tok(st: &St, i: Idx) -> Option<Tok> {
    let d = st.data(i);
    if *st.owner(i) != spl_token::ID || d.len() != 165 || d[108] == 0 || d[108] > 2 {
        return None;
    }
    let opt = |o: usize| -> Option<Option<Pubkey>> {
        match d[o..o + 4] {
            [0, 0, 0, 0] => Some(None),
            [1, 0, 0, 0] => Some(Some(Pubkey::new(&d[o + 4..o + 36]))),
            _ => None,
        }
    };
    Some(Tok { mint: Pubkey::new(&d[..32]), owner: Pubkey::new(&d[32..64]), amount: le(&d[64..]), delegate: opt(72)?, delegated: le(&d[121..]), close: opt(129)? })
}
/// (authority, supply)
pub fn mint_of(st: &St, i: Idx) -> Option<(Option<Pubkey>, u64)> {
    let d = st.data(i);
    if *st.owner(i) != spl_token::ID || d.len() != 82 || d[45] != 1 {
        return None;
    }
    let a = match d[..4] {
        [0, 0, 0, 0] => None,
        [1, 0, 0, 0] => Some(Pubkey::new(&d[4..36])),
        _ => return None,
    };
    Some((a, le(&d[36..])))
}

/// Notices instructions that never return.
pub mod watch {
    use super::Ix;
    use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering::Relaxed};
    use std::time::Instant;

    const N: usize = 4096;
    pub struct Slot {
        start: AtomicU64,
        ix: AtomicPtr<Ix>,
    }
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: Slot = Slot { start: AtomicU64::new(0), ix: AtomicPtr::new(std::ptr::null_mut()) };
    static SLOTS: [Slot; N] = [Z; N];
    static TICK: AtomicU64 = AtomicU64::new(1);
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    thread_local! { static ME: usize = NEXT.fetch_add(1, Relaxed) % N; }

    pub struct Busy(usize);
    pub fn busy(ix: &Ix) -> Busy {
        let i = ME.with(|m| *m);
        SLOTS[i].ix.store(ix as *const Ix as *mut Ix, Relaxed);
        SLOTS[i].start.store(TICK.load(Relaxed), Relaxed);
        Busy(i)
    }
    impl Drop for Busy {
        fn drop(&mut self) {
            SLOTS[self.0].start.store(0, Relaxed);
        }
    }
    /// calls `f` with the stuck instruction when one runs for more than `secs` seconds
    pub fn start(secs: u64, f: impl Fn(&Ix) + Send + 'static) {
        std::thread::spawn(move || {
            let t = Instant::now();
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let now = 1 + t.elapsed().as_millis() as u64;
                TICK.store(now, Relaxed);
                for s in SLOTS.iter() {
                    let b = s.start.load(Relaxed);
                    if b != 0 && now > b + secs * 1000 {
                        // the thread is stuck inside the call, so the instruction is still alive
                        f(unsafe { &*s.ix.load(Relaxed) });
                    }
                }
            }
        });
    }
}
