//! A stand-in for a Solana node: accounts, atomic transactions executed by the real programs
//! (order book, spl-token, system program) and the part of the JSON-RPC interface the client uses.
use serde_json::{json, Value};
use solana_program::{
    account_info::AccountInfo, clock::Clock, entrypoint::ProgramResult, instruction::Instruction, instruction::InstructionError, program_error::ProgramError, program_stubs,
    pubkey::Pubkey, rent::Rent, system_instruction::SystemInstruction, system_program, sysvar,
};
use solana_sdk::{hash::Hash, signature::Signature, transaction::Transaction, transaction::TransactionError};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

/// largest transaction a node takes
pub const PACKET: usize = 1232;
pub const NOW: i64 = 1_600_000_000;
pub static CLOCK: std::sync::atomic::AtomicI64 = std::sync::atomic::AtomicI64::new(NOW);

thread_local! { pub static CALLER: RefCell<Pubkey> = RefCell::new(Pubkey::default()); }
struct Stubs;
impl program_stubs::SyscallStubs for Stubs {
    fn sol_log(&self, _: &str) {}
    fn sol_log_compute_units(&self) {}
    fn sol_get_clock_sysvar(&self, p: *mut u8) -> u64 {
        let c = Clock { unix_timestamp: CLOCK.load(std::sync::atomic::Ordering::Relaxed), ..Clock::default() };
        unsafe { std::ptr::write_unaligned(p as *mut Clock, c) };
        0
    }
    fn sol_get_rent_sysvar(&self, p: *mut u8) -> u64 {
        unsafe { std::ptr::write_unaligned(p as *mut Rent, Rent::default()) };
        0
    }
    fn sol_invoke_signed(&self, ix: &Instruction, infos: &[AccountInfo], seeds: &[&[&[u8]]]) -> ProgramResult {
        let caller = CALLER.with(|c| *c.borrow());
        let signed: Vec<Pubkey> = seeds.iter().filter_map(|s| Pubkey::create_program_address(s, &caller).ok()).collect();
        if !infos.iter().any(|i| *i.key == ix.program_id) {
            return Err(ProgramError::NotEnoughAccountKeys);
        }
        let mut v = vec![];
        for m in &ix.accounts {
            let i = infos.iter().find(|i| *i.key == m.pubkey).ok_or(ProgramError::NotEnoughAccountKeys)?;
            let mut c = i.clone();
            if m.is_signer && !c.is_signer && !signed.contains(c.key) {
                return Err(ProgramError::MissingRequiredSignature);
            }
            if m.is_writable && !c.is_writable {
                return Err(ProgramError::InvalidArgument);
            }
            c.is_signer = m.is_signer;
            c.is_writable = m.is_writable;
            v.push(c);
        }
        if ix.program_id != spl_token::ID {
            return Err(ProgramError::IncorrectProgramId);
        }
        CALLER.with(|c| *c.borrow_mut() = spl_token::ID);
        let r = spl_token::processor::Processor::process(&ix.program_id, &v, &ix.data);
        CALLER.with(|c| *c.borrow_mut() = caller);
        r
    }
}
pub fn install() {
    program_stubs::set_syscall_stubs(Box::new(Stubs));
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Acct {
    pub owner: Pubkey,
    pub lam: u64,
    pub data: Vec<u8>,
    pub exec: bool,
}
pub type Accs = BTreeMap<Pubkey, Arc<Acct>>;

/// an instruction with its accounts' privileges resolved
#[derive(Clone, Debug)]
pub struct Ix {
    pub prog: Pubkey,
    pub accs: Vec<(Pubkey, bool, bool)>, // key, signer, writable
    pub data: Vec<u8>,
}
impl Ix {
    pub fn of(i: &Instruction) -> Ix {
        Ix { prog: i.program_id, accs: i.accounts.iter().map(|m| (m.pubkey, m.is_signer, m.is_writable)).collect(), data: i.data.clone() }
    }
}

#[derive(Clone)]
pub struct Chain {
    pub accs: Accs,
    pub dex: Pubkey,
}

fn err(e: ProgramError) -> InstructionError {
    let n: u64 = e.into();
    InstructionError::from(n)
}

impl Chain {
    pub fn new(dex: Pubkey) -> Chain {
        let mut c = Chain { accs: BTreeMap::new(), dex };
        for (k, o) in &[(dex, system_program::ID), (spl_token::ID, system_program::ID), (system_program::ID, system_program::ID)] {
            c.put(*k, *o, 1, vec![], true);
        }
        let r = bincode::serialize(&Rent::default()).unwrap();
        c.put(sysvar::rent::ID, sysvar::ID, 1, r, false);
        c
    }
    pub fn put(&mut self, k: Pubkey, owner: Pubkey, lam: u64, data: Vec<u8>, exec: bool) {
        self.accs.insert(k, Arc::new(Acct { owner, lam, data, exec }));
    }
    pub fn lam(&self, k: &Pubkey) -> u64 {
        self.accs.get(k).map_or(0, |a| a.lam)
    }
    pub fn data(&self, k: &Pubkey) -> &[u8] {
        self.accs.get(k).map_or(&[], |a| &a.data)
    }
    pub fn u64_at(&self, k: &Pubkey, o: usize) -> u64 {
        let mut t = [0u8; 8];
        t.copy_from_slice(&self.data(k)[o..o + 8]);
        u64::from_le_bytes(t)
    }
    pub fn bal(&self, k: &Pubkey) -> u64 {
        self.u64_at(k, 64)
    }
    pub fn hash(&self) -> u128 {
        use std::hash::{Hash, Hasher};
        let mut a = std::collections::hash_map::DefaultHasher::new();
        for (k, v) in &self.accs {
            k.hash(&mut a);
            v.hash(&mut a);
        }
        let mut b = std::collections::hash_map::DefaultHasher::new();
        0x9e3779b97f4a7c15u64.hash(&mut b);
        for (k, v) in &self.accs {
            v.hash(&mut b);
            k.hash(&mut b);
        }
        (a.finish() as u128) << 64 | b.finish() as u128
    }
    /// one instruction, in place; the caller rolls back on refusal
    fn one(&mut self, ix: &Ix) -> Result<(), InstructionError> {
        if ix.prog == system_program::ID {
            return self.system(ix);
        }
        if ix.prog != self.dex && ix.prog != spl_token::ID {
            return Err(InstructionError::UnsupportedProgramId);
        }
        let mut keys: Vec<Pubkey> = vec![];
        for a in &ix.accs {
            if !keys.contains(&a.0) {
                keys.push(a.0);
            }
        }
        let pre: Vec<Option<Arc<Acct>>> = keys.iter().map(|k| self.accs.get(k).cloned()).collect();
        struct Cell {
            lam: u64,
            len: usize,
            buf: Vec<u64>,
            owner: Pubkey,
        }
        let mut cells: Vec<Cell> = pre
            .iter()
            .map(|p| match p {
                Some(a) => {
                    let mut buf = vec![0u64; (a.data.len() + 7) / 8];
                    unsafe { std::ptr::copy_nonoverlapping(a.data.as_ptr(), buf.as_mut_ptr() as *mut u8, a.data.len()) };
                    Cell { lam: a.lam, len: a.data.len(), buf, owner: a.owner }
                }
                None => Cell { lam: 0, len: 0, buf: vec![], owner: system_program::ID },
            })
            .collect();
        let wr: Vec<bool> = keys.iter().map(|k| ix.accs.iter().any(|a| a.0 == *k && a.2)).collect();
        CALLER.with(|c| *c.borrow_mut() = ix.prog);
        let res = {
            let base = cells.as_mut_ptr();
            let mut uniq: Vec<AccountInfo> = vec![];
            for (n, k) in keys.iter().enumerate() {
                let x = unsafe { &mut *base.add(n) };
                let len = x.len;
                let d = unsafe { std::slice::from_raw_parts_mut(x.buf.as_mut_ptr() as *mut u8, len) };
                uniq.push(AccountInfo::new(k, false, wr[n], &mut x.lam, d, &x.owner, pre[n].as_ref().map_or(false, |a| a.exec), 0));
            }
            let infos: Vec<AccountInfo> = ix
                .accs
                .iter()
                .map(|a| {
                    let mut i = uniq[keys.iter().position(|k| *k == a.0).unwrap()].clone();
                    i.is_signer = ix.accs.iter().any(|b| b.0 == a.0 && b.1);
                    i
                })
                .collect();
            catch_unwind(AssertUnwindSafe(|| {
                if ix.prog == spl_token::ID {
                    spl_token::processor::Processor::process(&ix.prog, &infos, &ix.data)
                } else {
                    serum_dex::state::State::process(&ix.prog, &infos, &ix.data).map_err(|e| e.into())
                }
            }))
        };
        match res {
            Err(_) => return Err(InstructionError::ProgramFailedToComplete),
            Ok(Err(e)) => return Err(err(e)),
            Ok(Ok(())) => (),
        }
        let (mut a, mut b) = (0u128, 0u128);
        for (n, k) in keys.iter().enumerate() {
            let c = &cells[n];
            let data = unsafe { std::slice::from_raw_parts(c.buf.as_ptr() as *const u8, c.len) };
            let old = match &pre[n] {
                Some(o) => o.clone(),
                None => Arc::new(Acct { owner: system_program::ID, lam: 0, data: vec![], exec: false }),
            };
            a += old.lam as u128;
            b += c.lam as u128;
            if old.lam == c.lam && old.data == data {
                continue;
            }
            if !wr[n] {
                return Err(InstructionError::ReadonlyDataModified);
            }
            // token accounts may be changed by the order book through cross-program calls
            let mine = old.owner == ix.prog || (ix.prog == self.dex && old.owner == spl_token::ID);
            if (old.data != data && !mine) || (old.lam > c.lam && old.owner != ix.prog) {
                return Err(InstructionError::ExternalAccountDataModified);
            }
            self.accs.insert(*k, Arc::new(Acct { owner: old.owner, lam: c.lam, data: data.to_vec(), exec: old.exec }));
        }
        if a != b {
            return Err(InstructionError::UnbalancedInstruction);
        }
        Ok(())
    }
    fn system(&mut self, ix: &Ix) -> Result<(), InstructionError> {
        let i: SystemInstruction = bincode::deserialize(&ix.data).map_err(|_| InstructionError::InvalidInstructionData)?;
        let g = |n: usize| ix.accs.get(n).cloned().ok_or(InstructionError::NotEnoughAccountKeys);
        let (from, to) = (g(0)?, g(1)?);
        if !from.1 {
            return Err(InstructionError::MissingRequiredSignature);
        }
        let (n, fresh) = match i {
            SystemInstruction::Transfer { lamports } => (lamports, None),
            SystemInstruction::CreateAccount { lamports, space, owner } => {
                if !to.1 {
                    return Err(InstructionError::MissingRequiredSignature);
                }
                if self.accs.contains_key(&to.0) {
                    return Err(InstructionError::Custom(0));
                }
                if space > 10 * 1024 * 1024 {
                    return Err(InstructionError::Custom(3));
                }
                (lamports, Some((space as usize, owner)))
            }
            _ => return Err(InstructionError::InvalidInstructionData),
        };
        let f = self.accs.get(&from.0).cloned().ok_or(InstructionError::Custom(1))?;
        if f.owner != system_program::ID || !f.data.is_empty() {
            return Err(InstructionError::InvalidArgument);
        }
        if f.lam < n {
            return Err(InstructionError::Custom(1));
        }
        if n > 0 && (!from.2 || !to.2) {
            return Err(InstructionError::ReadonlyLamportChange);
        }
        self.accs.insert(from.0, Arc::new(Acct { lam: f.lam - n, ..(*f).clone() }));
        let mut t = self.accs.get(&to.0).map(|a| (**a).clone()).unwrap_or(Acct { owner: system_program::ID, lam: 0, data: vec![], exec: false });
        t.lam += n;
        if let Some((space, owner)) = fresh {
            t.data = vec![0; space];
            t.owner = owner;
        }
        self.accs.insert(to.0, Arc::new(t));
        Ok(())
    }
    /// several instructions, all or nothing
    pub fn all(&mut self, ixs: &[Ix]) -> Result<(), TransactionError> {
        let before = self.accs.clone();
        for (n, i) in ixs.iter().enumerate() {
            if let Err(e) = self.one(i) {
                self.accs = before;
                return Err(TransactionError::InstructionError(n as u8, e));
            }
        }
        // what is left without lamports disappears
        let gone: Vec<Pubkey> = self.accs.iter().filter(|x| x.1.lam == 0).map(|x| *x.0).collect();
        for k in gone {
            self.accs.remove(&k);
        }
        Ok(())
    }
    pub fn decode(tx: &Transaction) -> Result<Vec<Ix>, TransactionError> {
        let m = &tx.message;
        let mut v = vec![];
        for c in &m.instructions {
            let k = |i: u8| m.account_keys.get(i as usize).cloned().ok_or(TransactionError::SanitizeFailure);
            let mut accs = vec![];
            for &a in &c.accounts {
                accs.push((k(a)?, m.is_signer(a as usize), m.is_writable(a as usize)));
            }
            v.push(Ix { prog: k(c.program_id_index)?, accs, data: c.data.clone() });
        }
        Ok(v)
    }
}

pub fn key_param(p: &Value, i: usize) -> Option<Pubkey> {
    p[i].as_str().and_then(|s| bs58::decode(s).into_vec().ok()).filter(|v| v.len() == 32).map(|v| Pubkey::new(&v))
}
pub fn raw_param(p: &Value) -> Option<Vec<u8>> {
    let s = p[0].as_str().unwrap_or("");
    match p[1]["encoding"].as_str() {
        Some("base64") => base64::decode(s).ok(),
        _ => bs58::decode(s).into_vec().ok(),
    }
}

/// whether only what is finalized is asked for
fn late(config: &Value) -> bool {
    match config["commitment"].as_str() {
        None | Some("finalized") | Some("max") | Some("root") => true,
        _ => false,
    }
}

/// what goes wrong with one request
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Fault {
    /// the request never reaches the node
    Lost,
    /// the node carries the request out, the answer is lost
    Mute,
    /// the node answers with an error and does nothing
    Refuse,
    /// the node says yes, but the transaction never lands
    Drop,
    /// the transaction is processed in a block that is abandoned; then the node can no longer be reached
    Fork,
}
pub const FAULTS: [Fault; 5] = [Fault::Lost, Fault::Mute, Fault::Refuse, Fault::Drop, Fault::Fork];

pub struct Node {
    pub chain: Chain,
    pub slot: u64,
    pub ticks: u64,
    pub status: BTreeMap<Signature, Result<(), TransactionError>>,
    pub calls: usize,
    pub fault: Option<(usize, Fault)>,
    pub sent: Vec<Vec<Ix>>,
    pub log: Vec<String>,
    /// answers per sendTransaction, in turn (true: as usual, false: refused)
    pub sends: Vec<bool>,
    /// looks at every request first and may answer it
    pub hook: Option<Hook>,
    /// abandoned transaction, number of times its status has been told
    pub forked: Option<(Signature, usize)>,
    /// the finalized accounts, if they lag behind
    pub old: Option<Accs>,
}
pub type Hook = Box<dyn FnMut(&mut Node, &str, &Value) -> Option<Answer> + Send>;
pub enum Answer {
    Ok(Value),
    /// JSON-RPC error
    Err(i64, String),
    /// no answer at all
    None,
}
impl Node {
    pub fn new(chain: Chain) -> Node {
        Node { chain, slot: 100, ticks: 0, status: BTreeMap::new(), calls: 0, fault: None, sent: vec![], log: vec![], sends: vec![], hook: None, forked: None, old: None }
    }
    fn blockhash(&self) -> Hash {
        solana_sdk::hash::hash(&self.ticks.to_le_bytes())
    }
    fn ctx(&self, v: Value) -> Value {
        json!({"context": {"slot": self.slot}, "value": v})
    }
    fn admit(&self, raw: &[u8]) -> Result<(Transaction, Vec<Ix>), TransactionError> {
        let tx: Transaction = bincode::deserialize(raw).map_err(|_| TransactionError::SanitizeFailure)?;
        if tx.verify().is_err() {
            return Err(TransactionError::SignatureFailure);
        }
        if tx.message.recent_blockhash != self.blockhash() {
            return Err(TransactionError::BlockhashNotFound);
        }
        if tx.signatures.is_empty() || self.status.contains_key(&tx.signatures[0]) {
            return Err(TransactionError::AlreadyProcessed);
        }
        if self.chain.lam(&tx.message.account_keys[0]) == 0 {
            return Err(TransactionError::AccountNotFound);
        }
        let ixs = Chain::decode(&tx)?;
        Ok((tx, ixs))
    }
    pub fn rpc(&mut self, method: &str, p: &Value) -> Answer {
        if let Some(mut h) = self.hook.take() {
            let a = h(self, method, p);
            self.hook = Some(h);
            if let Some(a) = a {
                return a;
            }
        }
        let n = self.calls;
        self.calls += 1;
        self.log.push(method.to_string());
        let f = self.fault.and_then(|(k, f)| if k == n { Some(f) } else { None });
        match f {
            Some(Fault::Lost) => return Answer::None,
            Some(Fault::Refuse) => return Answer::Err(-32005, "node is unhealthy".into()),
            Some(Fault::Mute) => {
                self.answer(method, p, false);
                return Answer::None;
            }
            Some(Fault::Drop) => return self.answer(method, p, true),
            Some(Fault::Fork) => {
                let sig = raw_param(p).and_then(|r| bincode::deserialize::<Transaction>(&r).ok()).and_then(|t| t.signatures.get(0).cloned()).unwrap_or_default();
                self.forked = Some((sig, 0));
                return Answer::Ok(json!(sig.to_string()));
            }
            None => (),
        }
        if let Some((sig, n)) = self.forked {
            if method == "getSignatureStatuses" && n < 2 {
                self.forked = Some((sig, n + 1));
                let st: Result<(), TransactionError> = Ok(());
                return Answer::Ok(self.ctx(json!([{"slot": self.slot, "confirmations": 0, "status": st, "err": null, "confirmationStatus": "processed"}])));
            }
            return Answer::None;
        }
        self.answer(method, p, false)
    }
    fn answer(&mut self, method: &str, p: &Value, drop: bool) -> Answer {
        let key = |i: usize| key_param(p, i);
        let raw = || raw_param(p);
        match method {
            "getVersion" => Answer::Ok(json!({"solana-core": "1.10.3", "feature-set": 1})),
            "getLatestBlockhash" => Answer::Ok(self.ctx(json!({"blockhash": self.blockhash().to_string(), "lastValidBlockHeight": 1000}))),
            "isBlockhashValid" => {
                let ok = p[0].as_str() == Some(&self.blockhash().to_string()) && !drop;
                Answer::Ok(self.ctx(json!(ok)))
            }
            "getMinimumBalanceForRentExemption" => Answer::Ok(json!(Rent::default().minimum_balance(p[0].as_u64().unwrap_or(0) as usize))),
            "getAccountInfo" => {
                let from = if late(&p[1]) { self.old.as_ref() } else { None }.unwrap_or(&self.chain.accs);
                let v = match key(0).and_then(|k| from.get(&k).cloned()) {
                    None => Value::Null,
                    Some(a) => json!({"lamports": a.lam, "owner": a.owner.to_string(), "executable": a.exec, "rentEpoch": 0, "data": [base64::encode(&a.data), "base64"]}),
                };
                Answer::Ok(self.ctx(v))
            }
            "simulateTransaction" => {
                let e = match raw() {
                    None => return Answer::Err(-32602, "invalid transaction".into()),
                    Some(r) if r.len() > PACKET => return Answer::Err(-32602, "transaction too large".into()),
                    Some(r) => match self.admit(&r) {
                        Err(e) => Some(e),
                        Ok((_, ixs)) => {
                            let mut c = self.chain.clone();
                            if let (true, Some(o)) = (late(&p[1]), &self.old) {
                                c.accs = o.clone();
                            }
                            c.all(&ixs).err()
                        }
                    },
                };
                Answer::Ok(self.ctx(json!({"err": e, "logs": [], "accounts": null, "unitsConsumed": 1})))
            }
            "sendTransaction" => {
                let r = match raw() {
                    None => return Answer::Err(-32602, "invalid transaction".into()),
                    Some(r) if r.len() > PACKET => {
                        return Answer::Err(-32602, format!("transaction too large: {} bytes", r.len()));
                    }
                    Some(r) => r,
                };
                let tx: Transaction = match bincode::deserialize(&r) {
                    Ok(t) => t,
                    Err(_) => return Answer::Err(-32602, "invalid transaction".into()),
                };
                let sig = tx.signatures.get(0).cloned().unwrap_or_default();
                if !self.sends.is_empty() && !self.sends.remove(0) {
                    return Answer::Err(-32005, "node is behind".into());
                }
                if drop {
                    // the transaction's blockhash expires without it
                    self.ticks += 1;
                    return Answer::Ok(json!(sig.to_string()));
                }
                match self.admit(&r) {
                    // such a transaction never makes it into a block
                    Err(TransactionError::SignatureFailure) => return Answer::Err(-32003, "signature verification failure".into()),
                    Err(_) => {
                        self.ticks += 1;
                    }
                    Ok((_, ixs)) => {
                        let e = self.chain.all(&ixs);
                        self.sent.push(ixs);
                        self.status.insert(sig, e);
                    }
                }
                Answer::Ok(json!(sig.to_string()))
            }
            "getSignatureStatuses" => {
                let mut v = vec![];
                for s in p[0].as_array().cloned().unwrap_or_default() {
                    let st = s.as_str().and_then(|s| s.parse::<Signature>().ok()).and_then(|s| self.status.get(&s).cloned());
                    v.push(match st {
                        None => Value::Null,
                        Some(r) => {
                            let e = r.clone().err();
                            json!({"slot": self.slot, "confirmations": null, "status": r, "err": e, "confirmationStatus": "finalized"})
                        }
                    });
                }
                Answer::Ok(self.ctx(Value::Array(v)))
            }
            _ => Answer::Err(-32601, format!("method not found: {}", method)),
        }
    }
}
