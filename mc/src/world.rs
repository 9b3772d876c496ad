//! A tiny Solana-like runtime: a fixed universe of accounts, transactions that run the real
//! `serum_dex` processor, CPI into the real `spl_token` processor, and the runtime's own rules
//! (atomicity, signer/writable privileges, PDA signing, lamport conservation).
use solana_program::{
    account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult, instruction::Instruction,
    program_error::ProgramError, program_pack::Pack, program_stubs, pubkey::Pubkey, rent::Rent,
    system_program, sysvar,
};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub type Idx = u16;

#[derive(Clone)]
pub struct Acc {
    pub key: Pubkey,
    pub owner: Pubkey,
    pub off: usize,
    pub len: usize,
    pub name: String,
}

#[derive(Clone, PartialEq, Eq)]
pub struct St {
    pub buf: Vec<u8>,
    pub lam: Vec<u64>,
    pub clock: i64,
}

impl St {
    pub fn copy_from(&mut self, o: &St) {
        self.buf.copy_from_slice(&o.buf);
        self.lam.copy_from_slice(&o.lam);
        self.clock = o.clock;
    }
    pub fn hash(&self) -> u128 {
        let mut h = Hasher2::new();
        h.bytes(&self.buf);
        for l in &self.lam {
            h.word(*l);
        }
        h.word(self.clock as u64);
        h.fin()
    }
}

/// 128-bit non-cryptographic hash (two independent folded-multiply lanes).
pub struct Hasher2 {
    a: u64,
    b: u64,
}
impl Hasher2 {
    pub fn new() -> Self {
        Hasher2 { a: 0x9E37_79B9_7F4A_7C15, b: 0xD1B5_4A32_D192_ED03 }
    }
    #[inline(always)]
    pub fn word(&mut self, w: u64) {
        let m = (self.a ^ w) as u128 * 0x9FB2_1C65_1E98_DF25u128;
        self.a = (m as u64) ^ ((m >> 64) as u64);
        let m = (self.b.rotate_left(23) ^ w) as u128 * 0xA24B_AED4_963E_E407u128;
        self.b = (m as u64).wrapping_add((m >> 64) as u64).wrapping_add(0x632B_E59B_D9B4_E019);
    }
    pub fn bytes(&mut self, b: &[u8]) {
        let mut c = b.chunks_exact(8);
        let mut zeros = 0u64;
        for x in &mut c {
            let w = u64::from_le_bytes([x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7]]);
            if w == 0 {
                zeros += 1;
            } else {
                if zeros != 0 {
                    self.word(zeros ^ 0x5555_0000_0000_0000);
                    zeros = 0;
                }
                self.word(w);
            }
        }
        self.word(zeros ^ 0x5555_0000_0000_0000);
        let mut t = [0u8; 8];
        t[..c.remainder().len()].copy_from_slice(c.remainder());
        self.word(u64::from_le_bytes(t));
    }
    pub fn fin(mut self) -> u128 {
        self.word(0x1234);
        self.word(0x5678);
        ((self.a as u128) << 64) | self.b as u128
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Ix {
    pub data: Vec<u8>,
    pub accs: Vec<Idx>,
    pub signers: Vec<Idx>,
    pub readonly: Vec<Idx>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Out {
    Ok,
    Err(String),
    Panic,
}
impl Out {
    pub fn ok(&self) -> bool {
        matches!(self, Out::Ok)
    }
}

thread_local! {
    static CLOCK: Cell<i64> = Cell::new(0);
    static CALLER: RefCell<Vec<Pubkey>> = RefCell::new(vec![]);
    static CPI_FAILED: Cell<bool> = Cell::new(false);
    static PDA: RefCell<HashMap<(Vec<u8>, Pubkey), Option<Pubkey>>> = RefCell::new(HashMap::new());
    static QUIET: Cell<bool> = Cell::new(false);
}

struct Stubs;

fn pda(seeds: &[&[u8]], prog: &Pubkey) -> Option<Pubkey> {
    let mut flat = vec![];
    for s in seeds {
        flat.push(s.len() as u8);
        flat.extend_from_slice(s);
    }
    PDA.with(|c| {
        *c.borrow_mut()
            .entry((flat, *prog))
            .or_insert_with(|| Pubkey::create_program_address(seeds, prog).ok())
    })
}

impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _m: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let c = Clock { unix_timestamp: CLOCK.with(|c| c.get()), ..Clock::default() };
        unsafe { std::ptr::write_unaligned(p as *mut Clock, c) };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { std::ptr::write_unaligned(p as *mut Rent, Rent::default()) };
        0
    }
    fn sol_invoke_signed(
        &self,
        ix: &Instruction,
        infos: &[AccountInfo],
        seeds: &[&[&[u8]]],
    ) -> ProgramResult {
        let r = invoke(ix, infos, seeds);
        if r.is_err() {
            // a failed cross-program call aborts the whole transaction
            CPI_FAILED.with(|c| c.set(true));
        }
        r
    }
}

fn invoke(ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
    let caller = CALLER.with(|c| *c.borrow().last().unwrap());
    if !infos.iter().any(|i| *i.key == ix.program_id) {
        return Err(ProgramError::Custom(0xdead_0001));
    }
    let signed: Vec<Pubkey> = seeds.iter().filter_map(|s| pda(s, &caller)).collect();
    let mut v = vec![];
    for m in &ix.accounts {
        let i = infos.iter().find(|i| *i.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
        if m.is_signer && !(i.is_signer || signed.contains(i.key)) {
            return Err(ProgramError::MissingRequiredSignature);
        }
        if m.is_writable && !i.is_writable {
            return Err(ProgramError::Custom(0xdead_0002));
        }
        let mut c = i.clone();
        c.is_signer = m.is_signer;
        c.is_writable = m.is_writable;
        v.push(c);
    }
    if ix.program_id != spl_token::ID {
        return Err(ProgramError::IncorrectProgramId);
    }
    CALLER.with(|c| c.borrow_mut().push(ix.program_id));
    let r = spl_token::processor::Processor::process(&ix.program_id, &v, &ix.data);
    CALLER.with(|c| c.borrow_mut().pop());
    r
}

pub fn install() {
    program_stubs::set_syscall_stubs(Box::new(Stubs));
    let prev = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |i| {
        if !QUIET.with(|q| q.get()) {
            prev(i)
        }
    }));
}

#[derive(Clone)]
pub struct World {
    pub accs: Vec<Acc>,
    pub prog: Pubkey,
    pub by_key: HashMap<Pubkey, Idx>,
    pub st: St,
}

pub fn mk_key(tag: u64, n: u64) -> Pubkey {
    // first little-endian word carries the ordering used by sorted account lists
    let mut b = [0u8; 32];
    b[..8].copy_from_slice(&(tag * 1_000_003 + n).to_le_bytes());
    b[8..16].copy_from_slice(&(0xfeed_0000 + tag).to_le_bytes());
    b[16..24].copy_from_slice(&(n.wrapping_mul(0x9E37_79B9_7F4A_7C15)).to_le_bytes());
    b[24..32].copy_from_slice(&0x5eed_5eed_5eed_5eedu64.to_le_bytes());
    Pubkey::new(&b)
}

impl World {
    pub fn new() -> Self {
        World {
            accs: vec![],
            prog: mk_key(99, 99),
            by_key: HashMap::new(),
            st: St { buf: vec![], lam: vec![], clock: 1_000 },
        }
    }
    pub fn add(&mut self, name: &str, key: Pubkey, owner: Pubkey, lam: u64, data: &[u8]) -> Idx {
        let off = self.st.buf.len();
        self.st.buf.extend_from_slice(data);
        while self.st.buf.len() % 8 != 0 {
            self.st.buf.push(0);
        }
        self.st.lam.push(lam);
        let i = self.accs.len() as Idx;
        self.accs.push(Acc { key, owner, off, len: data.len(), name: name.to_string() });
        self.by_key.insert(key, i);
        i
    }
    pub fn add_dex(&mut self, name: &str, key: Pubkey, unpadded: usize) -> Idx {
        let p = self.prog;
        self.add(name, key, p, 60_000_000_000, &vec![0u8; unpadded + 12])
    }
    pub fn add_mint(&mut self, name: &str, key: Pubkey) -> Idx {
        let mut d = vec![0u8; spl_token::state::Mint::LEN];
        let mut m = spl_token::state::Mint::default();
        m.is_initialized = true;
        spl_token::state::Mint::pack(m, &mut d).unwrap();
        self.add(name, key, spl_token::ID, 10_000_000_000, &d)
    }
    pub fn add_token(&mut self, name: &str, key: Pubkey, mint: &Pubkey, owner: &Pubkey, bal: u64) -> Idx {
        let d = token_data(mint, owner, bal);
        self.add(name, key, spl_token::ID, 10_000_000_000, &d)
    }
    pub fn add_sys(&mut self, name: &str, key: Pubkey) -> Idx {
        self.add(name, key, system_program::ID, 10_000_000_000, &[])
    }
    pub fn add_programs(&mut self) -> (Idx, Idx) {
        let a = self.add("spl_token", spl_token::ID, solana_program::bpf_loader::ID, 1, &[]);
        let r = self.add("rent", sysvar::rent::ID, sysvar::ID, 1, &[0u8; 17]);
        (a, r)
    }
    pub fn key(&self, i: Idx) -> &Pubkey {
        &self.accs[i as usize].key
    }
    pub fn data<'a>(&self, st: &'a St, i: Idx) -> &'a [u8] {
        let a = &self.accs[i as usize];
        &st.buf[a.off..a.off + a.len]
    }
    pub fn data_mut<'a>(&self, st: &'a mut St, i: Idx) -> &'a mut [u8] {
        let a = &self.accs[i as usize];
        &mut st.buf[a.off..a.off + a.len]
    }
    pub fn name(&self, i: Idx) -> &str {
        &self.accs[i as usize].name
    }

    /// Runs one transaction. `post` must hold a copy of `pre`; on failure it is restored.
    pub fn exec(&self, pre: &St, post: &mut St, ix: &Ix) -> Out {
        let _b = watch::busy(ix);
        let r = self.exec_raw(pre, post, ix);
        if !r.ok() {
            self.restore(pre, post, ix);
        }
        r
    }
    /// undoes whatever the instruction could have touched
    pub fn restore(&self, pre: &St, post: &mut St, ix: &Ix) {
        for &i in &ix.accs {
            let a = &self.accs[i as usize];
            post.buf[a.off..a.off + a.len].copy_from_slice(&pre.buf[a.off..a.off + a.len]);
            post.lam[i as usize] = pre.lam[i as usize];
        }
    }

    fn exec_raw(&self, pre: &St, post: &mut St, ix: &Ix) -> Out {
        CLOCK.with(|c| c.set(pre.clock));
        CPI_FAILED.with(|c| c.set(false));
        let writable = |i: Idx| !ix.readonly.contains(&i);
        let base = post.buf.as_mut_ptr();
        let lbase = post.lam.as_mut_ptr();
        let res = {
            let mut infos: Vec<AccountInfo> = Vec::with_capacity(ix.accs.len());
            for (n, &i) in ix.accs.iter().enumerate() {
                if let Some(p) = ix.accs[..n].iter().position(|&j| j == i) {
                    let c = infos[p].clone();
                    infos.push(c);
                    continue;
                }
                let a = &self.accs[i as usize];
                let d = unsafe { std::slice::from_raw_parts_mut(base.add(a.off), a.len) };
                let l = unsafe { &mut *lbase.add(i as usize) };
                infos.push(AccountInfo::new(
                    &a.key,
                    ix.signers.contains(&i),
                    writable(i),
                    l,
                    d,
                    &a.owner,
                    false,
                    0,
                ));
            }
            CALLER.with(|c| {
                let mut c = c.borrow_mut();
                c.clear();
                c.push(self.prog)
            });
            QUIET.with(|q| q.set(true));
            let r = catch_unwind(AssertUnwindSafe(|| {
                serum_dex::state::State::process(&self.prog, &infos, &ix.data)
            }));
            QUIET.with(|q| q.set(false));
            r
        };
        match res {
            Err(_) => return Out::Panic,
            Ok(Err(e)) => return Out::Err(format!("{:?}", e)),
            Ok(Ok(())) => (),
        }
        if CPI_FAILED.with(|c| c.get()) {
            return Out::Err("cpi".into());
        }
        // runtime rules after the call
        let (mut s0, mut s1) = (0u128, 0u128);
        for (n, &i) in ix.accs.iter().enumerate() {
            if ix.accs[..n].contains(&i) {
                continue;
            }
            let a = &self.accs[i as usize];
            s0 += pre.lam[i as usize] as u128;
            s1 += post.lam[i as usize] as u128;
            let changed = pre.buf[a.off..a.off + a.len] != post.buf[a.off..a.off + a.len];
            let lchanged = pre.lam[i as usize] != post.lam[i as usize];
            if (changed || lchanged) && !writable(i) {
                return Out::Err("runtime: readonly account modified".into());
            }
            if changed && a.owner != self.prog && a.owner != spl_token::ID {
                return Out::Err("runtime: foreign account data modified".into());
            }
            if post.lam[i as usize] < pre.lam[i as usize] && a.owner != self.prog {
                return Out::Err("runtime: foreign lamports spent".into());
            }
        }
        if s0 != s1 {
            return Out::Err("runtime: lamports not conserved".into());
        }
        Out::Ok
    }
}

pub fn token_data(mint: &Pubkey, owner: &Pubkey, bal: u64) -> Vec<u8> {
    let mut d = vec![0u8; spl_token::state::Account::LEN];
    let mut a = spl_token::state::Account::default();
    a.mint = *mint;
    a.owner = *owner;
    a.amount = bal;
    a.state = spl_token::state::AccountState::Initialized;
    spl_token::state::Account::pack(a, &mut d).unwrap();
    d
}

/// Notices instructions that never return.
pub mod watch {
    use super::Ix;
    use std::sync::atomic::{AtomicPtr, AtomicU64, AtomicUsize, Ordering::Relaxed};
    use std::time::Instant;

    const N: usize = 4096;
    pub struct Slot {
        start: AtomicU64,
        ix: AtomicPtr<Ix>,
    }
    #[allow(clippy::declare_interior_mutable_const)]
    const Z: Slot = Slot { start: AtomicU64::new(0), ix: AtomicPtr::new(std::ptr::null_mut()) };
    static SLOTS: [Slot; N] = [Z; N];
    static TICK: AtomicU64 = AtomicU64::new(1);
    static NEXT: AtomicUsize = AtomicUsize::new(0);
    thread_local! { static ME: usize = NEXT.fetch_add(1, Relaxed) % N; }

    pub struct Busy(usize);
    pub fn busy(ix: &Ix) -> Busy {
        let i = ME.with(|m| *m);
        SLOTS[i].ix.store(ix as *const Ix as *mut Ix, Relaxed);
        SLOTS[i].start.store(TICK.load(Relaxed), Relaxed);
        Busy(i)
    }
    impl Drop for Busy {
        fn drop(&mut self) {
            SLOTS[self.0].start.store(0, Relaxed);
        }
    }
    /// calls `f` with the stuck instruction when one runs for more than `secs` seconds
    pub fn start(secs: u64, f: impl Fn(&Ix) + Send + 'static) {
        std::thread::spawn(move || {
            let t = Instant::now();
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let now = 1 + t.elapsed().as_millis() as u64;
                TICK.store(now, Relaxed);
                for s in SLOTS.iter() {
                    let b = s.start.load(Relaxed);
                    if b != 0 && now > b + secs * 1000 {
                        // the thread is stuck inside the call, so the instruction is still alive
                        f(unsafe { &*s.ix.load(Relaxed) });
                    }
                }
            }
        });
    }
}

/// suppresses panic messages on this thread
pub fn quiet(on: bool) {
    QUIET.with(|q| q.set(on));
}
