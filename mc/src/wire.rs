//! The wire format: every instruction byte string in a bounded space is decoded exactly as
//! documented or refused, encoding is its inverse, and the client helpers build the documented
//! account lists, whose execution has the effect of the instruction they name.
use crate::auth;
use crate::spec::*;
use crate::world::*;
use crate::Special;
use serum_dex::instruction as di;
use serum_dex::instruction::{MarketInstruction as MI, SelfTradeBehavior};
use serum_dex::matching::{OrderType, Side as DSide};
use solana_program::instruction::Instruction;
use solana_program::pubkey::Pubkey;
use std::num::NonZeroU64;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::time::Instant;

/// fields of an instruction, in wire order
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Fd {
    Side,
    Stb,
    Ty,
    /// non-zero 64-bit
    Nz,
    U64,
    U16,
    I64,
    U128,
    Key,
    U8,
}
use Fd::*;

fn width(f: Fd) -> usize {
    match f {
        Side | Stb | Ty => 4,
        Nz | U64 | I64 => 8,
        U16 => 2,
        U128 => 16,
        Key => 32,
        U8 => 1,
    }
}

const ORDER: &[Fd] = &[Side, Nz, Nz, Nz, Stb, Ty, U64, U16, I64];
/// (discriminant, fields); lists of variable length are handled separately
const LAYOUT: &[(u32, &[Fd])] = &[
    (0, &[U64, U64, U16, U64, U64]),
    (1, &[Side, Nz, Nz, Ty, U64]),
    (2, &[U16]),
    (3, &[U16]),
    (4, &[Side, U128, Key, U8]),
    (5, &[]),
    (6, &[U64]),
    (7, &[]),
    (8, &[]),
    (9, &[Side, Nz, Nz, Ty, U64, Stb]),
    (10, ORDER),
    (11, &[Side, U128]),
    (12, &[U64]),
    (13, &[Side, Nz, Nz, Nz, U64, U64, U16]),
    (14, &[]),
    (15, &[]),
    (16, &[U16]),
    (17, &[U16]),
    (19, ORDER),
];

#[derive(Clone, Copy)]
struct Val {
    n: u64,
    w: u128,
    k: [u64; 4],
}

fn fields(fs: &[Fd], b: &[u8]) -> Option<Vec<Val>> {
    if fs.iter().map(|f| width(*f)).sum::<usize>() != b.len() {
        return None;
    }
    let mut at = 0;
    let mut out = vec![];
    for f in fs {
        let x = &b[at..at + width(*f)];
        at += width(*f);
        let mut v = Val { n: 0, w: 0, k: [0; 4] };
        if *f == Key {
            for i in 0..4 {
                for j in 0..8 {
                    v.k[i] |= (x[8 * i + j] as u64) << (8 * j);
                }
            }
        } else {
            for (i, y) in x.iter().enumerate() {
                v.w |= (*y as u128) << (8 * i);
            }
            v.n = v.w as u64;
        }
        let max = match f {
            Side => 1,
            Stb | Ty => 2,
            _ => u64::MAX,
        };
        if v.n > max || *f == Nz && v.n == 0 {
            return None;
        }
        out.push(v);
    }
    Some(out)
}

fn side(v: Val) -> DSide {
    if v.n == 0 {
        DSide::Bid
    } else {
        DSide::Ask
    }
}
fn stb(v: Val) -> SelfTradeBehavior {
    match v.n {
        0 => SelfTradeBehavior::DecrementTake,
        1 => SelfTradeBehavior::CancelProvide,
        _ => SelfTradeBehavior::AbortTransaction,
    }
}
fn ty(v: Val) -> OrderType {
    match v.n {
        0 => OrderType::Limit,
        1 => OrderType::ImmediateOrCancel,
        _ => OrderType::PostOnly,
    }
}
fn nz(v: Val) -> NonZeroU64 {
    NonZeroU64::new(v.n).unwrap()
}
fn order(b: &[u8]) -> Option<di::NewOrderInstructionV3> {
    let v = fields(ORDER, b)?;
    Some(di::NewOrderInstructionV3 {
        side: side(v[0]),
        limit_price: nz(v[1]),
        max_coin_qty: nz(v[2]),
        max_native_pc_qty_including_fees: nz(v[3]),
        self_trade_behavior: stb(v[4]),
        order_type: ty(v[5]),
        client_order_id: v[6].n,
        limit: v[7].n as u16,
        max_ts: v[8].n as i64,
    })
}

/// the documented decoding
fn decode(b: &[u8]) -> Option<MI> {
    if b.len() < 5 || b[0] != 0 {
        return None;
    }
    let d = b[1] as u32 | (b[2] as u32) << 8 | (b[3] as u32) << 16 | (b[4] as u32) << 24;
    let x = &b[5..];
    let fs = LAYOUT.iter().find(|l| l.0 == d).map(|l| l.1);
    Some(match d {
        10 if x.len() == 46 => {
            let mut y = x.to_vec();
            y.extend_from_slice(&i64::MAX.to_le_bytes());
            MI::NewOrderV3(order(&y)?)
        }
        10 => MI::NewOrderV3(order(x)?),
        19 => MI::ReplaceOrderByClientId(order(x)?),
        18 => {
            if x.len() % 8 != 0 || x.len() > 64 {
                return None;
            }
            let mut ids = [0u64; 8];
            for (i, c) in x.chunks(8).enumerate() {
                ids[i] = fields(&[U64], c)?[0].n;
            }
            MI::CancelOrdersByClientIds(ids)
        }
        20 => {
            if x.len() < 8 {
                return None;
            }
            let n = fields(&[U64], &x[..8])?[0].n;
            if n > 8 || x.len() as u64 != 8 + 54 * n {
                return None;
            }
            let v: Option<Vec<_>> = x[8..].chunks(54).map(order).collect();
            MI::ReplaceOrdersByClientIds(v?)
        }
        _ => {
            let v = fields(fs?, x)?;
            match d {
                0 => MI::InitializeMarket(di::InitializeMarketInstruction {
                    coin_lot_size: v[0].n,
                    pc_lot_size: v[1].n,
                    fee_rate_bps: v[2].n as u16,
                    vault_signer_nonce: v[3].n,
                    pc_dust_threshold: v[4].n,
                }),
                1 => MI::NewOrder(di::NewOrderInstructionV1 { side: side(v[0]), limit_price: nz(v[1]), max_qty: nz(v[2]), order_type: ty(v[3]), client_id: v[4].n }),
                2 => MI::MatchOrders(v[0].n as u16),
                3 => MI::ConsumeEvents(v[0].n as u16),
                4 => MI::CancelOrder(di::CancelOrderInstruction { side: side(v[0]), order_id: v[1].w, owner: v[2].k, owner_slot: v[3].n as u8 }),
                5 => MI::SettleFunds,
                6 => MI::CancelOrderByClientId(v[0].n),
                7 => MI::DisableMarket,
                8 => MI::SweepFees,
                9 => MI::NewOrderV2(di::NewOrderInstructionV2 {
                    side: side(v[0]),
                    limit_price: nz(v[1]),
                    max_qty: nz(v[2]),
                    order_type: ty(v[3]),
                    client_id: v[4].n,
                    self_trade_behavior: stb(v[5]),
                }),
                11 => MI::CancelOrderV2(di::CancelOrderInstructionV2 { side: side(v[0]), order_id: v[1].w }),
                12 => MI::CancelOrderByClientIdV2(v[0].n),
                13 => MI::SendTake(di::SendTakeInstruction {
                    side: side(v[0]),
                    limit_price: nz(v[1]),
                    max_coin_qty: nz(v[2]),
                    max_native_pc_qty_including_fees: nz(v[3]),
                    min_coin_qty: v[4].n,
                    min_native_pc_qty: v[5].n,
                    limit: v[6].n as u16,
                }),
                14 => MI::CloseOpenOrders,
                15 => MI::InitOpenOrders,
                16 => MI::Prune(v[0].n as u16),
                17 => MI::ConsumeEventsPermissioned(v[0].n as u16),
                _ => return None,
            }
        }
    })
}

/// the documented encoding of a decoded string (short forms are written in full)
fn canonical(b: &[u8]) -> Vec<u8> {
    let mut v = b.to_vec();
    if b[1] == 10 && b.len() == 51 {
        v.extend_from_slice(&i64::MAX.to_le_bytes());
    }
    if b[1] == 18 {
        v.resize(5 + 64, 0);
    }
    v
}

struct Run {
    cases: u64,
    accepted: u64,
    samples: Vec<String>,
    bad: Option<String>,
}

impl Run {
    fn case(&mut self, b: &[u8]) {
        if self.bad.is_some() {
            return;
        }
        self.cases += 1;
        quiet(true);
        let got = catch_unwind(AssertUnwindSafe(|| MI::unpack(b)));
        quiet(false);
        let got = match got {
            Ok(g) => g,
            Err(_) => {
                self.bad = Some(format!("decoding panics on {:02x?}", b));
                return;
            }
        };
        let want = decode(b);
        if got != want {
            self.bad = Some(format!("{:02x?} decodes to {:?}, expected {:?}", b, got, want));
            return;
        }
        if let Some(i) = got {
            self.accepted += 1;
            if self.accepted % 50_021 == 1 && self.samples.len() < 8 {
                self.samples.push(format!("{:?}", i));
            }
            let p = i.pack();
            if p != canonical(b) {
                self.bad = Some(format!("{:?} encodes to {:02x?}, expected {:02x?}", i, p, canonical(b)));
            }
        }
    }
}

fn vals(f: Fd, thorough: bool) -> Vec<u128> {
    let mut v: Vec<u128> = match f {
        Side | Stb | Ty => vec![0, 1, 2, 3, 4, 127, 128, 255, 256, 257, 258, 511, 65535, 65536, 65537, 65538, 1 << 24, (1 << 24) + 1, 1 << 31, 0xffff_ffff],
        U16 => vec![0, 1, 2, 127, 128, 255, 256, 257, 0x7fff, 0x8000, 0xffff],
        U8 => (0..256).collect(),
        Nz | U64 | I64 => vec![
            0, 1, 2, 255, 256, 65535, 65536, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, 0x0102_0304_0506_0708, 0x8000_0000, 0x7fff_ffff_ffff_fffe, 0x7fff_ffff_ffff_ffff, 0x8000_0000_0000_0000, 0x8000_0000_0000_0001,
            0xff00_0000_0000_0000, 0xffff_ffff_ffff_fffe, 0xffff_ffff_ffff_ffff,
        ],
        U128 | Key => {
            let mut v = vec![0, 1, u64::MAX as u128, 1 << 64, (1 << 64) - 2, u128::MAX, u128::MAX - 1, 1 << 127, 0x0102_0304_0506_0708_090a_0b0c_0d0e_0f10];
            v.extend((0..16).map(|i| 0x5bu128 << (8 * i)));
            v
        }
    };
    if thorough {
        let w = width(f).min(16) * 8;
        v.extend((0..w).map(|i| 1u128 << i));
        v.extend((1..w).map(|i| (1u128 << i) - 1));
        v.sort();
        v.dedup();
    }
    v
}

fn template(fs: &[Fd]) -> Vec<u8> {
    let mut b = vec![];
    for (i, f) in fs.iter().enumerate() {
        let x: u128 = match f {
            Side | Stb | Ty => 1,
            _ => 0x1112_1314_1516_1718_191a_1b1c_1d1e_1f20u128.wrapping_add((i as u128) << 4),
        };
        let n = width(*f);
        let le = x.to_le_bytes();
        for j in 0..n {
            b.push(le[j % 16] ^ if j >= 16 { 0x40 } else { 0 });
        }
    }
    b
}

fn put(b: &mut [u8], fs: &[Fd], i: usize, x: u128) {
    let at: usize = fs[..i].iter().map(|f| width(*f)).sum();
    let n = width(fs[i]);
    let le = x.to_le_bytes();
    for j in 0..n.min(16) {
        b[at + j] = le[j];
    }
}

fn head(d: u32) -> Vec<u8> {
    let mut b = vec![0];
    b.extend_from_slice(&d.to_le_bytes());
    b
}

fn decoding(r: &mut Run, thorough: bool, deadline: Instant) -> bool {
    let mut ds: Vec<u32> = (0..=40).collect();
    for i in 0..=20u32 {
        ds.extend_from_slice(&[i | 1 << 8, i | 1 << 16, i | 1 << 24, i | 1 << 31]);
    }
    ds.extend_from_slice(&[127, 128, 255, u32::MAX, u32::MAX - 1]);
    // every length and some fillings, every discriminant, several versions
    for &d in &ds {
        for ver in [0u8, 1, 2, 128, 255] {
            for len in 0..=520usize {
                for fill in 0..4 {
                    if ver != 0 && fill != 2 {
                        continue;
                    }
                    let mut b = head(d);
                    b[0] = ver;
                    let n = len;
                    match fill {
                        0 => b.resize(5 + n, 0),
                        1 => b.resize(5 + n, 1),
                        2 => {
                            // a valid prefix, then more orders
                            let mut t = match LAYOUT.iter().find(|l| l.0 == d & 0xff) {
                                Some(l) => template(l.1),
                                None if d & 0xff == 20 && n >= 8 => ((n as u64 - 8) / 54).to_le_bytes().to_vec(),
                                None => vec![],
                            };
                            while t.len() < n {
                                t.extend(template(ORDER));
                            }
                            t.truncate(n);
                            b.extend(t);
                        }
                        _ => {
                            let mut t = template(ORDER);
                            while t.len() < n {
                                t.extend(template(ORDER));
                            }
                            t.truncate(n);
                            b.extend(t);
                        }
                    }
                    r.case(&b);
                }
            }
        }
    }
    // short strings
    for len in 0..5usize {
        for x in 0..=255u8 {
            r.case(&vec![x; len]);
            let mut b = vec![0u8; len];
            if len > 0 {
                b[len - 1] = x;
            }
            r.case(&b);
        }
    }
    // fields: every single byte, every pair (thorough: triple) of boundary values
    let mut groups: Vec<(Vec<u8>, Vec<Fd>)> = LAYOUT.iter().map(|l| (head(l.0), l.1.to_vec())).collect();
    groups.push((head(10), ORDER[..8].to_vec()));
    for n in 0..=8usize {
        groups.push((head(18), vec![U64; n]));
    }
    for n in 0..=9usize {
        let mut h = head(20);
        h.extend_from_slice(&(n as u64).to_le_bytes());
        let mut f = vec![];
        for _ in 0..n {
            f.extend_from_slice(ORDER);
        }
        groups.push((h, f));
    }
    for (h, fs) in &groups {
        let t = template(fs);
        let mk = |t: &[u8]| {
            let mut b = h.clone();
            b.extend_from_slice(t);
            b
        };
        r.case(&mk(&t));
        for i in 0..t.len() {
            for x in 0..=255u8 {
                let mut y = t.clone();
                y[i] = x;
                r.case(&mk(&y));
            }
        }
        let few = fs.len() > 12;
        for i in 0..fs.len() {
            for &x in &vals(fs[i], thorough && !few) {
                let mut y = t.clone();
                put(&mut y, fs, i, x);
                r.case(&mk(&y));
                for j in 0..i {
                    if few && (i % 9 != j % 9 || i - j > 18) && !thorough {
                        continue;
                    }
                    for &x2 in &vals(fs[j], thorough && !few) {
                        let mut z = y.clone();
                        put(&mut z, fs, j, x2);
                        r.case(&mk(&z));
                        if thorough && !few {
                            for k in 0..j {
                                for &x3 in &vals(fs[k], false) {
                                    let mut q = z.clone();
                                    put(&mut q, fs, k, x3);
                                    r.case(&mk(&q));
                                }
                            }
                        }
                    }
                }
            }
            if Instant::now() > deadline {
                return false;
            }
        }
        // all 2^n zero patterns of short field lists
        if fs.len() <= 9 {
            for s in 0..1u32 << fs.len() {
                let mut y = t.clone();
                for i in 0..fs.len() {
                    if s >> i & 1 == 1 {
                        put(&mut y, fs, i, 0);
                    }
                }
                r.case(&mk(&y));
            }
        }
    }
    // counts that disagree with the length
    for n in 0..=9u64 {
        for c in (0..=12u64).chain([54, 255, 256, 1 << 32, 1 << 63, u64::MAX, (1 << 32) + n, u64::MAX / 54, (1u64 << 63) + n]) {
            let mut b = head(20);
            b.extend_from_slice(&c.to_le_bytes());
            for _ in 0..n {
                b.extend(template(ORDER));
            }
            r.case(&b);
        }
    }
    true
}

/// documented account list: (index in the key list, signer, writable)
type Metas = Vec<(Pubkey, bool, bool)>;

fn built(r: &mut Run, name: &str, got: Result<Instruction, serum_dex::error::DexError>, prog: &Pubkey, data: Vec<u8>, want: Metas) -> Option<Instruction> {
    if r.bad.is_some() {
        return None;
    }
    r.cases += 1;
    let i = match got {
        Ok(i) => i,
        Err(e) => {
            r.bad = Some(format!("helper {} refuses: {:?}", name, e));
            return None;
        }
    };
    let m: Metas = i.accounts.iter().map(|a| (a.pubkey, a.is_signer, a.is_writable)).collect();
    if i.program_id != *prog {
        r.bad = Some(format!("helper {} names the wrong program", name));
    } else if i.data != data {
        r.bad = Some(format!("helper {} encodes {:02x?}, expected {:02x?}", name, i.data, data));
    } else if m != want {
        r.bad = Some(format!("helper {} lists accounts {:?}, expected {:?}", name, m, want));
    }
    Some(i)
}

fn bytes(d: u32, fs: &[Fd], v: &[u128]) -> Vec<u8> {
    let mut b = head(d);
    assert_eq!(fs.len(), v.len());
    for (f, x) in fs.iter().zip(v) {
        b.extend_from_slice(&x.to_le_bytes()[..width(*f)]);
    }
    b
}
fn lay(d: u32) -> &'static [Fd] {
    LAYOUT.iter().find(|l| l.0 == d).unwrap().1
}

/// all helpers with distinct keys and boundary values in every argument
fn helpers(r: &mut Run) {
    let k: Vec<Pubkey> = (0..20).map(|i| mk_key(900 + i, i)).collect();
    let prog = mk_key(999, 1);
    let w = |i: usize| (k[i], false, true);
    let ro = |i: usize| (k[i], false, false);
    let sg = |i: usize| (k[i], true, false);
    let rent = (solana_program::sysvar::rent::ID, false, false);
    let u64s: Vec<u64> = vals(U64, false).iter().map(|x| *x as u64).collect();
    let nzs: Vec<u64> = u64s.iter().copied().filter(|x| *x != 0).collect();
    let u16s: Vec<u16> = vals(U16, false).iter().map(|x| *x as u16).collect();
    let n = |x: u64| NonZeroU64::new(x).unwrap();
    // initialisation: every presence of the authorities
    for p in 0..8usize {
        for a in 0..4usize {
            for &x in &u64s {
                let mut v = [3u64, 5, 7, 11];
                v[a] = x;
                let o = |b: usize, i: usize| if p >> b & 1 == 1 { Some(&k[i]) } else { None };
                let mut want = vec![w(0), w(11), w(12), w(9), w(10), w(3), w(4), ro(1), ro(2), rent];
                for (b, i) in [(0usize, 5usize), (1, 6), (2, 7)] {
                    if p & ((2 << b) - 1) == (2 << b) - 1 {
                        want.push(ro(i));
                    }
                }
                let got = di::initialize_market(&k[0], &prog, &k[1], &k[2], &k[3], &k[4], o(0, 5), o(1, 6), o(2, 7), &k[9], &k[10], &k[11], &k[12], v[0], v[1], v[2], v[3]);
                built(r, "initialize_market", got, &prog, bytes(0, lay(0), &[v[0] as u128, v[1] as u128, 0, v[2] as u128, v[3] as u128]), want);
            }
        }
    }
    // orders
    for srm in 0..2 {
        for s in 0..2u128 {
            for st in 0..3u128 {
                for t in 0..3u128 {
                    for f in 0..6usize {
                        for (vi, _) in u64s.iter().enumerate() {
                            let mut v: [u64; 6] = [21, 22, 23, 24, 25, 26];
                            v[f] = if f < 3 { nzs[vi % nzs.len()] } else { u64s[vi] };
                            let lim = if f == 4 { u16s[vi % u16s.len()] } else { 77 };
                            let d = bytes(10, ORDER, &[s, v[0] as u128, v[1] as u128, v[2] as u128, st, t, v[3] as u128, lim as u128, v[5] as u128]);
                            let val = |x: u128| Val { n: x as u64, w: x, k: [0; 4] };
                            let got = di::new_order(
                                &k[0], &k[1], &k[2], &k[3], &k[4], &k[5], &k[6], &k[7], &k[8], &k[9], &k[10], &k[11],
                                if srm == 1 { Some(&k[12]) } else { None },
                                &prog, side(val(s)), n(v[0]), n(v[1]), ty(val(t)), v[3], stb(val(st)), lim, n(v[2]), v[5] as i64,
                            );
                            let mut want = vec![w(0), w(1), w(2), w(3), w(4), w(5), w(6), sg(7), w(8), w(9), ro(10), ro(11)];
                            if srm == 1 {
                                want.push(ro(12));
                            }
                            built(r, "new_order", got, &prog, d, want);
                        }
                    }
                }
            }
            for f in 0..6usize {
                for (vi, _) in u64s.iter().enumerate() {
                    let mut v: [u64; 5] = [21, 22, 23, 24, 25];
                    let mut lim = 77;
                    if f < 5 {
                        v[f] = if f < 3 { nzs[vi % nzs.len()] } else { u64s[vi] };
                    } else {
                        lim = u16s[vi % u16s.len()];
                    }
                    let d = bytes(13, lay(13), &[s, v[0] as u128, v[1] as u128, v[2] as u128, v[3] as u128, v[4] as u128, lim as u128]);
                    let val = |x: u128| Val { n: x as u64, w: x, k: [0; 4] };
                    let got = di::send_take(
                        &k[0], &k[1], &k[2], &k[3], &k[4], &k[5], &k[6], &k[7], &k[8], &k[9], &k[10], &k[11],
                        if srm == 1 { Some(&k[12]) } else { None },
                        &prog, side(val(s)), n(v[0]), n(v[1]), n(v[2]), v[3], v[4], lim,
                    );
                    let mut want = vec![w(0), w(1), w(2), w(3), w(4), w(5), w(6), sg(7), w(8), w(9), ro(10), ro(11)];
                    if srm == 1 {
                        want.push(ro(12));
                    }
                    built(r, "send_take", got, &prog, d, want);
                }
            }
        }
    }
    for &l in &u16s {
        for c in 0..=5usize {
            let oos: Vec<&Pubkey> = (0..c).map(|i| &k[19 - i]).collect();
            let mut want: Metas = (0..c).map(|i| w(19 - i)).collect();
            want.extend_from_slice(&[w(0), w(1), w(2), w(3)]);
            built(r, "consume_events", di::consume_events(&prog, oos.clone(), &k[0], &k[1], &k[2], &k[3], l), &prog, bytes(3, lay(3), &[l as u128]), want);
            let mut want: Metas = (0..c).map(|i| w(19 - i)).collect();
            want.extend_from_slice(&[w(0), w(1), sg(2)]);
            built(r, "consume_events_permissioned", di::consume_events_permissioned(&prog, oos, &k[0], &k[1], &k[2], l), &prog, bytes(17, lay(17), &[l as u128]), want);
        }
        built(r, "match_orders", di::match_orders(&prog, &k[0], &k[1], &k[2], &k[3], &k[4], &k[5], &k[6], l), &prog, bytes(2, lay(2), &[l as u128]), vec![w(0), w(1), w(4), w(2), w(3), w(5), w(6)]);
        built(
            r,
            "prune",
            di::prune(&prog, &k[0], &k[1], &k[2], &k[3], &k[4], &k[5], &k[6], l),
            &prog,
            bytes(16, lay(16), &[l as u128]),
            vec![w(0), w(1), w(2), sg(3), w(4), ro(5), w(6)],
        );
    }
    let cw = || vec![w(0), w(1), w(2), w(3), sg(4), w(5)];
    for s in 0..2u128 {
        for id in vals(U128, false) {
            let sd = if s == 0 { DSide::Bid } else { DSide::Ask };
            built(r, "cancel_order", di::cancel_order(&prog, &k[0], &k[1], &k[2], &k[3], &k[4], &k[5], sd, id), &prog, bytes(11, lay(11), &[s, id]), cw());
        }
    }
    for &x in &u64s {
        built(r, "cancel_order_by_client_order_id", di::cancel_order_by_client_order_id(&prog, &k[0], &k[1], &k[2], &k[3], &k[4], &k[5], x), &prog, bytes(12, lay(12), &[x as u128]), cw());
        for i in 0..8 {
            let mut ids = [9u64, 8, 7, 6, 5, 4, 3, 2];
            ids[i] = x;
            let v: Vec<u128> = ids.iter().map(|y| *y as u128).collect();
            built(r, "cancel_orders_by_client_order_ids", di::cancel_orders_by_client_order_ids(&prog, &k[0], &k[1], &k[2], &k[3], &k[4], &k[5], ids), &prog, bytes(18, &[U64; 8], &v), cw());
        }
    }
    for rf in 0..2 {
        let mut want = vec![w(0), w(2), sg(3), w(4), w(6), w(5), w(7), ro(9), ro(1)];
        if rf == 1 {
            want.push(w(8));
        }
        let got = di::settle_funds(&prog, &k[0], &k[1], &k[2], &k[3], &k[4], &k[5], &k[6], &k[7], if rf == 1 { Some(&k[8]) } else { None }, &k[9]);
        built(r, "settle_funds", got, &prog, head(5), want);
        let mut want = vec![w(0), sg(1), ro(2), rent];
        if rf == 1 {
            want.push(sg(3));
        }
        built(r, "init_open_orders", di::init_open_orders(&prog, &k[0], &k[1], &k[2], if rf == 1 { Some(&k[3]) } else { None }), &prog, head(15), want);
    }
    built(r, "disable_market", di::disable_market(&prog, &k[0], &k[1]), &prog, head(7), vec![w(0), sg(1)]);
    built(r, "sweep_fees", di::sweep_fees(&prog, &k[0], &k[1], &k[2], &k[3], &k[4], &k[5]), &prog, head(8), vec![w(0), w(1), sg(2), w(3), ro(4), ro(5)]);
    built(r, "close_open_orders", di::close_open_orders(&prog, &k[0], &k[1], &k[2], &k[3]), &prog, head(14), vec![w(0), sg(1), w(2), ro(3)]);
}

fn dside(s: crate::spec::Side) -> DSide {
    if s == crate::spec::Side::Bid {
        DSide::Bid
    } else {
        DSide::Ask
    }
}

/// helpers' output executed with exactly the privileges they ask for
fn execution(r: &mut Run) -> Result<(), String> {
    for perm in [false, true] {
        for (nm, op, d, st, rix) in auth::legit_cases(perm)? {
            if r.bad.is_some() {
                return Ok(());
            }
            let key = |i: usize| d.w.key(rix.accs[i]);
            let prog = d.w.prog;
            let opt = |i: usize| if rix.accs.len() > i { Some(key(i)) } else { None };
            let n = |x: u64| NonZeroU64::new(x).unwrap();
            let got = match &op {
                Op::New(_, o) | Op::NewSrm(_, o, _) => di::new_order(
                    key(0), key(1), key(2), key(3), key(4), key(5), key(6), key(7), key(8), key(9), key(10), key(11), opt(12), &prog,
                    dside(o.side), n(o.price), n(o.qty),
                    ty(Val { n: o.ty as u64, w: 0, k: [0; 4] }),
                    o.cid,
                    stb(Val { n: o.stb as u64, w: 0, k: [0; 4] }),
                    o.limit, n(o.pc), o.ts,
                ),
                Op::Take(_, t) | Op::TakeSrm(_, t, _) => di::send_take(
                    key(0), key(1), key(2), key(3), key(4), key(5), key(6), key(7), key(8), key(9), key(10), key(11), opt(12), &prog,
                    dside(t.side), n(t.price), n(t.qty), n(t.pc), t.min_coin, t.min_pc, t.limit,
                ),
                Op::CancelNth(_, s, _) => {
                    let mut id = [0u8; 16];
                    id.copy_from_slice(&rix.data[9..25]);
                    di::cancel_order(&prog, key(0), key(1), key(2), key(3), key(4), key(5), dside(*s), u128::from_le_bytes(id))
                }
                Op::CancelCid(_, c) => di::cancel_order_by_client_order_id(&prog, key(0), key(1), key(2), key(3), key(4), key(5), *c),
                Op::CancelCids(_, c) => {
                    let mut ids = [0u64; 8];
                    ids[..c.len()].copy_from_slice(c);
                    di::cancel_orders_by_client_order_ids(&prog, key(0), key(1), key(2), key(3), key(4), key(5), ids)
                }
                Op::Settle(_) | Op::SettleRef(_) => di::settle_funds(&prog, key(0), key(8), key(1), key(2), key(3), key(5), key(4), key(6), opt(9), key(7)),
                Op::Sweep => di::sweep_fees(&prog, key(0), key(1), key(2), key(3), key(4), key(5)),
                Op::Disable => di::disable_market(&prog, key(0), key(1)),
                Op::Close(_) => di::close_open_orders(&prog, key(0), key(1), key(2), key(3)),
                Op::InitOo(_) | Op::InitOoAuth(_) => di::init_open_orders(&prog, key(0), key(1), key(2), opt(4)),
                Op::Prune(_, l) => di::prune(&prog, key(0), key(1), key(2), key(3), key(4), key(5), key(6), *l),
                Op::Consume(l, _) => {
                    let c = rix.accs.len() - 4;
                    di::consume_events(&prog, (0..c).map(|i| key(i)).collect(), key(c), key(c + 1), key(c + 2), key(c + 3), *l)
                }
                Op::ConsumePerm(l, _) => {
                    let c = rix.accs.len() - 3;
                    di::consume_events_permissioned(&prog, (0..c).map(|i| key(i)).collect(), key(c), key(c + 1), key(c + 2), *l)
                }
                _ => continue,
            };
            r.cases += 1;
            let i = match got {
                Ok(i) => i,
                Err(e) => {
                    r.bad = Some(format!("helper for {} refuses: {:?}", nm, e));
                    return Ok(());
                }
            };
            let mut ix = Ix { data: i.data.clone(), accs: vec![], signers: vec![], readonly: vec![] };
            for a in &i.accounts {
                let x = match d.w.by_key.get(&a.pubkey) {
                    Some(x) => *x,
                    None => {
                        r.bad = Some(format!("helper for {} names an unknown account {}", nm, a.pubkey));
                        return Ok(());
                    }
                };
                ix.accs.push(x);
                if a.is_signer {
                    ix.signers.push(x);
                }
                if !a.is_writable {
                    ix.readonly.push(x);
                }
            }
            let mut p1 = st.clone();
            let mut p2 = st.clone();
            let o1 = d.w.exec(&st, &mut p1, &ix);
            let o2 = d.w.exec(&st, &mut p2, &rix);
            if o1.ok() != o2.ok() || p1.hash() != p2.hash() {
                r.bad = Some(format!("{} built by the client helper ends in {:?}, spelled out it ends in {:?}", nm, o1, o2));
                return Ok(());
            }
            if o1.ok() {
                r.accepted += 1;
            }
        }
    }
    Ok(())
}

pub fn run(thorough: bool, deadline: Instant) -> Special {
    let mut r = Run { cases: 0, accepted: 0, samples: vec![], bad: None };
    let mut ex = true;
    helpers(&mut r);
    if let Err(e) = execution(&mut r) {
        r.samples.push(format!("execution of client-built instructions could not be set up: {}", e));
        ex = false;
    }
    if r.bad.is_none() {
        ex &= decoding(&mut r, thorough, deadline);
    }
    Special {
        name: "wire".into(),
        states: r.cases,
        transitions: r.cases + r.accepted,
        leaves: r.accepted,
        samples: r.samples,
        exhaustive: ex,
        violation: r.bad,
    }
}
