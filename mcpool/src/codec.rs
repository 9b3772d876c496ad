//! Pool formats: what the schema crate reads, writes and publishes, against encodings written out by hand.
//! A stand-in program runs the crate's own code on the bytes it is given and leaves the outcome in an account.
use crate::explore::*;
use crate::pool::{Action, PState, Rd, Req, REQ_TAG, STATE_TAG};
use crate::rt::*;
use borsh::schema::{BorshSchema, BorshSchemaContainer, Definition, Fields};
use borsh::{BorshDeserialize, BorshSerialize};

use serum_pool_schema as sc;
use solana_program::{account_info::AccountInfo, entrypoint::ProgramResult, program_error::ProgramError, pubkey::Pubkey};

fn hex(b: &[u8]) -> String {
    b.iter().map(|x| format!("{:02x}", x)).collect()
}
fn seq<T>(v: &[T], f: impl Fn(&T) -> String) -> String {
    format!("[{}]", v.iter().map(f).collect::<Vec<_>>().join(","))
}

// ---------------------------------------------------------------- the crate's own view

fn addr(a: &sc::Address) -> String {
    let k: Pubkey = a.clone().into();
    format!("({})", hex(k.as_ref()))
}
fn t_state(s: &sc::PoolState) -> String {
    let asset = |a: &sc::AssetInfo| t_asset(a);
    let param = |p: &sc::ParamDesc| t_param(p);
    format!(
        "{{tag:({}),pool_token_mint:{},assets:{},vault_signer:{},vault_signer_nonce:{},account_params:{},name:{},lqd_fee_vault:{},initializer_fee_vault:{},fee_rate:{},admin_key:{},custom_state:{}}}",
        u64::from_le_bytes(eight(&s.tag.try_to_vec().unwrap())),
        addr(&s.pool_token_mint),
        seq(&s.assets, asset),
        addr(&s.vault_signer),
        s.vault_signer_nonce,
        seq(&s.account_params, param),
        hex(s.name.as_bytes()),
        addr(&s.lqd_fee_vault),
        addr(&s.initializer_fee_vault),
        s.fee_rate,
        match &s.admin_key {
            None => "None".into(),
            Some(a) => format!("Some{}", addr(a)),
        },
        hex(&s.custom_state)
    )
}
fn eight(b: &[u8]) -> [u8; 8] {
    let mut x = [0u8; 8];
    x.copy_from_slice(&b[..8]);
    x
}
fn t_asset(a: &sc::AssetInfo) -> String {
    format!("{{mint:{},vault_address:{}}}", addr(&a.mint), addr(&a.vault_address))
}
fn t_param(p: &sc::ParamDesc) -> String {
    format!("{{address:{},writable:{}}}", addr(&p.address), p.writable)
}
fn t_action(a: &sc::PoolAction) -> String {
    match a {
        sc::PoolAction::Create(n) => format!("Create({})", n),
        sc::PoolAction::Redeem(n) => format!("Redeem({})", n),
        sc::PoolAction::Swap(v) => format!("Swap({})", seq(v, |x| x.to_string())),
    }
}
fn t_init(i: &sc::InitializePoolRequest) -> String {
    format!("{{vault_signer_nonce:{},assets_length:{},pool_name:{},fee_rate:{},custom_data:{}}}", i.vault_signer_nonce, i.assets_length, hex(i.pool_name.as_bytes()), i.fee_rate, hex(&i.custom_data))
}
fn t_req(q: &sc::PoolRequest) -> String {
    let i = match &q.inner {
        sc::PoolRequestInner::Initialize(i) => format!("Initialize({})", t_init(i)),
        sc::PoolRequestInner::GetBasket(a) => format!("GetBasket({})", t_action(a)),
        sc::PoolRequestInner::Execute(a) => format!("Execute({})", t_action(a)),
    };
    format!("{{tag:({}),inner:{}}}", u64::from_le_bytes(eight(&q.tag.try_to_vec().unwrap())), i)
}
fn t_basket(b: &sc::Basket) -> String {
    format!("{{quantities:{}}}", seq(&b.quantities, |x| x.to_string()))
}

// ---------------------------------------------------------------- reading by the published description

fn by_schema(c: &BorshSchemaContainer, decl: &str, d: &mut &[u8]) -> Option<String> {
    fn num(d: &mut &[u8], n: usize) -> Option<u64> {
        if d.len() < n {
            return None;
        }
        let (a, b) = d.split_at(n);
        *d = b;
        Some(a.iter().rev().fold(0u64, |s, x| s << 8 | *x as u64))
    }
    fn many(c: &BorshSchemaContainer, n: usize, e: &str, d: &mut &[u8]) -> Option<String> {
        if e == "u8" {
            if d.len() < n {
                return None;
            }
            let (a, b) = d.split_at(n);
            *d = b;
            return Some(hex(a));
        }
        let mut v = vec![];
        for _ in 0..n {
            v.push(by_schema(c, e, d)?);
        }
        Some(format!("[{}]", v.join(",")))
    }
    Some(match decl {
        "u8" => num(d, 1)?.to_string(),
        "u16" => num(d, 2)?.to_string(),
        "u32" => num(d, 4)?.to_string(),
        "u64" => num(d, 8)?.to_string(),
        "i64" => (num(d, 8)? as i64).to_string(),
        "nil" => String::new(),
        "bool" => match num(d, 1)? {
            0 => "false".into(),
            1 => "true".into(),
            _ => return None,
        },
        "string" => {
            let n = num(d, 4)? as usize;
            let h = many(c, n, "u8", d)?;
            let b: Vec<u8> = (0..n).map(|i| u8::from_str_radix(&h[2 * i..2 * i + 2], 16).unwrap()).collect();
            std::str::from_utf8(&b).ok()?;
            h
        }
        _ => match c.definitions.get(decl)? {
            Definition::Array { length, elements } => many(c, *length as usize, elements, d)?,
            Definition::Sequence { elements } => {
                let n = num(d, 4)? as usize;
                many(c, n, elements, d)?
            }
            Definition::Tuple { elements } => {
                let mut v = vec![];
                for e in elements {
                    v.push(by_schema(c, e, d)?);
                }
                format!("({})", v.join(","))
            }
            Definition::Enum { variants } => {
                let (name, e) = variants.get(num(d, 1)? as usize)?;
                format!("{}{}", name, by_schema(c, e, d)?)
            }
            Definition::Struct { fields } => match fields {
                Fields::Empty => String::new(),
                Fields::UnnamedFields(f) => {
                    let mut v = vec![];
                    for e in f {
                        v.push(by_schema(c, e, d)?);
                    }
                    format!("({})", v.join(","))
                }
                Fields::NamedFields(f) => {
                    let mut v = vec![];
                    for (n, e) in f {
                        v.push(format!("{}:{}", n, by_schema(c, e, d)?));
                    }
                    format!("{{{}}}", v.join(","))
                }
            },
        },
    })
}
/// the description the crate's own tool publishes
fn published() -> BorshSchemaContainer {
    let mut c = sc::PoolState::schema_container();
    sc::PoolRequest::add_definitions_recursively(&mut c.definitions);
    c
}

thread_local! {
    static PUBLISHED: BorshSchemaContainer = published();
}

// ---------------------------------------------------------------- the stand-in program

const STATE: u8 = 0;
const REQUEST: u8 = 1;
const ACTION: u8 = 2;
const INIT: u8 = 3;
const BASKET: u8 = 4;
const ASSET: u8 = 5;
const PARAM: u8 = 6;
const ADDRESS: u8 = 7;
const STATE_FRONT: u8 = 8;
const STATE_SCHEMA: u8 = 9;
const REQUEST_SCHEMA: u8 = 10;
const CONSTANTS: u8 = 11;

pub fn entry(_: &Pubkey, infos: &[AccountInfo], data: &[u8]) -> ProgramResult {
    let s = outcome(data)?;
    infos[0].try_borrow_mut_data()?.copy_from_slice(&digest(&s));
    Ok(())
}
fn digest(s: &str) -> [u8; 16] {
    use std::hash::Hasher;
    let mut o = [0u8; 16];
    for (i, c) in o.chunks_mut(8).enumerate() {
        let mut h = std::collections::hash_map::DefaultHasher::new();
        h.write_u8(i as u8);
        h.write(s.as_bytes());
        c.copy_from_slice(&h.finish().to_le_bytes());
    }
    o
}
fn outcome(data: &[u8]) -> Result<String, ProgramError> {
    let (kind, mut d) = (data[0], &data[1..]);
    let no = |_| ProgramError::InvalidInstructionData;
    fn two<T: BorshSerialize>(x: &T, t: String) -> String {
        format!("{}|{}", t, hex(&x.try_to_vec().unwrap()))
    }
    fn part<T: BorshDeserialize + BorshSerialize>(d: &[u8], f: impl Fn(&T) -> String) -> Result<String, std::io::Error> {
        let x = T::try_from_slice(d)?;
        let again = T::try_from_slice(&x.try_to_vec()?)?;
        Ok(if f(&again) == f(&x) { two(&x, f(&x)) } else { "reads back differently".into() })
    }
    Ok(match kind {
        STATE => part::<sc::PoolState>(d, t_state).map_err(no)?,
        REQUEST => part::<sc::PoolRequest>(d, t_req).map_err(no)?,
        ACTION => part::<sc::PoolAction>(d, t_action).map_err(no)?,
        INIT => part::<sc::InitializePoolRequest>(d, t_init).map_err(no)?,
        BASKET => part::<sc::Basket>(d, t_basket).map_err(no)?,
        ASSET => part::<sc::AssetInfo>(d, t_asset).map_err(no)?,
        PARAM => part::<sc::ParamDesc>(d, t_param).map_err(no)?,
        ADDRESS => {
            let a = sc::Address::try_from_slice(d).map_err(no)?;
            let k = Pubkey::new(d);
            let mut m: sc::Address = Pubkey::new(&[7; 32]).into();
            *m.as_mut() = k;
            let r: &Pubkey = a.as_ref();
            let same = *r == k && a == sc::Address::from(k) && a == sc::Address::from(&k) && m == a && Pubkey::from(a.clone()) == k;
            format!("{}|{}", two(&a, addr(&a)), same)
        }
        STATE_FRONT => {
            let x: sc::PoolState = BorshDeserialize::deserialize(&mut d).map_err(no)?;
            format!("{}|{} left", t_state(&x), d.len())
        }
        STATE_SCHEMA | REQUEST_SCHEMA => {
            let t = PUBLISHED.with(|p| by_schema(p, if kind == STATE_SCHEMA { "PoolState" } else { "PoolRequest" }, &mut d)).ok_or(ProgramError::InvalidInstructionData)?;
            if !d.is_empty() {
                return Err(ProgramError::InvalidInstructionData);
            }
            t
        }
        _ => format!(
            "{} {} {} {} {} {}",
            hex(&sc::PoolStateTag::default().try_to_vec().unwrap()),
            hex(&sc::PoolRequestTag::default().try_to_vec().unwrap()),
            sc::MIN_FEE_RATE,
            sc::DEFAULT_FEE_RATE,
            sc::FEE_RATE_DENOMINATOR,
            sc::fee_owner::ID
        ),
    })
}

// ---------------------------------------------------------------- the documented view

fn k_addr(k: &Pubkey) -> String {
    format!("({})", hex(k.as_ref()))
}
fn w_state(tag: u64, s: &PState) -> String {
    format!(
        "{{tag:({}),pool_token_mint:{},assets:{},vault_signer:{},vault_signer_nonce:{},account_params:{},name:{},lqd_fee_vault:{},initializer_fee_vault:{},fee_rate:{},admin_key:{},custom_state:{}}}",
        tag,
        k_addr(&s.mint),
        seq(&s.assets, |a| format!("{{mint:{},vault_address:{}}}", k_addr(&a.0), k_addr(&a.1))),
        k_addr(&s.signer),
        s.nonce,
        seq(&s.params, |p| format!("{{address:{},writable:{}}}", k_addr(&p.0), p.1)),
        hex(&s.name),
        k_addr(&s.lqd),
        k_addr(&s.init_fee),
        s.fee,
        s.admin.as_ref().map_or("None".into(), |k| format!("Some{}", k_addr(k))),
        hex(&s.custom)
    )
}
fn w_action(a: &Action) -> String {
    match a {
        Action::Create(n) => format!("Create({})", n),
        Action::Redeem(n) => format!("Redeem({})", n),
        Action::Swap(v) => format!("Swap({})", seq(v, |x| x.to_string())),
    }
}
fn w_inner(q: &Req) -> (String, String) {
    match q {
        Req::Init { nonce, n, name, fee, custom } => {
            let t = format!("{{vault_signer_nonce:{},assets_length:{},pool_name:{},fee_rate:{},custom_data:{}}}", nonce, n, hex(name), fee, hex(custom));
            (format!("Initialize({})", t), t)
        }
        Req::Get(a) => (format!("GetBasket({})", w_action(a)), w_action(a)),
        Req::Exec(a) => (format!("Execute({})", w_action(a)), w_action(a)),
    }
}
fn w_req(tag: u64, q: &Req) -> String {
    format!("{{tag:({}),inner:{}}}", tag, w_inner(q).0)
}
fn retag(tag: u64, d: &[u8]) -> Option<(u64, Vec<u8>)> {
    let t = Rd(d).u64()?;
    let mut d = d.to_vec();
    d[..8].copy_from_slice(&tag.to_le_bytes());
    Some((t, d))
}
/// what the documented format makes of these bytes
fn want(data: &[u8]) -> Option<String> {
    let (kind, d) = (data[0], &data[1..]);
    // a request with the given bytes in the place of a part
    let inside = |v: u8| {
        let mut b = Req::Get(Action::Create(0)).bytes();
        b.truncate(8);
        b.push(v);
        b.extend_from_slice(d);
        Req::read(&b).and_then(|x| x)
    };
    Some(match kind {
        STATE => {
            let s = PState::read(d)?;
            if s.bytes() != d {
                return None;
            }
            format!("{}|{}", w_state(STATE_TAG, &s), hex(d))
        }
        // the description does not say which tag it must be
        STATE_SCHEMA => {
            let (tag, d) = retag(STATE_TAG, d)?;
            let s = PState::read(&d)?;
            if s.bytes() != d {
                return None;
            }
            w_state(tag, &s)
        }
        STATE_FRONT => {
            let s = PState::read(d)?;
            format!("{}|{} left", w_state(STATE_TAG, &s), d.len() - s.bytes().len())
        }
        REQUEST => format!("{}|{}", w_req(REQ_TAG, &Req::read(d)??), hex(d)),
        REQUEST_SCHEMA => {
            let (tag, d) = retag(REQ_TAG, d)?;
            w_req(tag, &Req::read(&d)??)
        }
        ACTION => format!("{}|{}", w_inner(&inside(1)?).1, hex(d)),
        INIT => format!("{}|{}", w_inner(&inside(0)?).1, hex(d)),
        BASKET => {
            let mut r = Rd(d);
            let n = r.u32()?;
            let mut v = vec![];
            for _ in 0..n {
                v.push((r.u64()? as i64).to_string());
            }
            if !r.0.is_empty() {
                return None;
            }
            format!("{{quantities:[{}]}}|{}", v.join(","), hex(d))
        }
        ASSET => {
            if d.len() != 64 {
                return None;
            }
            format!("{{mint:({}),vault_address:({})}}|{}", hex(&d[..32]), hex(&d[32..]), hex(d))
        }
        PARAM => {
            if d.len() != 33 || d[32] > 1 {
                return None;
            }
            format!("{{address:({}),writable:{}}}|{}", hex(&d[..32]), d[32] == 1, hex(d))
        }
        ADDRESS => {
            if d.len() != 32 {
                return None;
            }
            format!("({})|{}|true", hex(d), hex(d))
        }
        _ => "1b30b27f4c87a716 cfc41ccdbd6c0a22 150 2500 1000000 3LTvJCPiPSMjX1kBJ6ZfEhn4G2hM46aJ1yEZsk8i12TK".into(),
    })
}

fn judge(_: &World, pre: &St, ix: &Ix, _: &'static str, out: &Out, post: &St) -> Vec<Finding> {
    match want(&ix.data) {
        None => {
            if out.ok() {
                return vec![("format", format!("read {} bytes that are not in the documented format, as: {}", ix.data.len() - 1, outcome(&ix.data).unwrap_or_default()))];
            }
            if pre != post {
                return vec![("format", "refused, yet changed something".into())];
            }
        }
        Some(w) => {
            if !out.ok() {
                return vec![("format", format!("did not read {} ({:?})", w, out))];
            }
            if post.data(ix.accs[0]) != digest(&w) {
                let got = outcome(&ix.data).unwrap_or_default();
                return vec![("format", format!("gives\n  {}\nwhere the documented format says\n  {}", got, w))];
            }
        }
    }
    vec![]
}
pub fn scenario(name: &str, thorough: bool) -> Vec<Scn> {
    let key = |i: u64| mk_key(60, i);
    let spread = Pubkey::new(&(0..32).map(|i| 7 + 5 * i as u8).collect::<Vec<_>>());
    let names: Vec<Vec<u8>> = vec![vec![], b"a".to_vec(), "p\u{f6}\u{6f22}\u{1f30a} \0x".as_bytes().to_vec(), vec![b'n'; 300]];
    let customs: Vec<Vec<u8>> = vec![vec![], vec![0], (0..=255).collect(), vec![1, 0, 0, 0]];
    let nums: Vec<u64> = vec![0, 1, 255, 256, 0x0102030405060708, u32::MAX as u64, 1 << 32, i64::MAX as u64, 1 << 63, u64::MAX];
    // (kind, whole encoding)
    let mut whole: Vec<(u8, Vec<u8>)> = vec![];
    match name {
        "codec:state" => {
            for na in 0..4u64 {
                for np in 0..4u64 {
                    for (ni, n) in names.iter().enumerate() {
                        for (ci, c) in customs.iter().enumerate() {
                            for ad in 0..2 {
                                let s = PState {
                                    mint: key(1),
                                    assets: (0..na).map(|i| (key(10 + i), if i == 1 { key(10) } else { key(20 + i) })).collect(),
                                    signer: spread,
                                    nonce: [0, 1, 127, 255][((na + np) % 4) as usize],
                                    params: (0..np).map(|i| (key(30 + i), (i + ni as u64 + ci as u64) % 2 == 0)).collect(),
                                    name: n.clone(),
                                    lqd: key(3),
                                    init_fee: key(4),
                                    fee: [150, 2500, 0x01020304, u32::MAX][((na + ci as u64) % 4) as usize],
                                    admin: if ad == 1 { Some(key(5)) } else { None },
                                    custom: c.clone(),
                                };
                                whole.push((STATE, s.bytes()));
                            }
                        }
                    }
                }
            }
        }
        _ => {
            for nonce in [0u8, 1, 127, 255] {
                for n in [0u8, 1, 5, 255] {
                    for name in &names {
                        for fee in [0u32, 150, 0x01020304, u32::MAX] {
                            for c in &customs {
                                whole.push((REQUEST, Req::Init { nonce, n, name: name.clone(), fee, custom: c.clone() }.bytes()));
                            }
                        }
                    }
                }
            }
            let mut acts = vec![];
            for n in &nums {
                acts.push(Action::Create(*n));
                acts.push(Action::Redeem(*n));
            }
            for k in 0..5usize {
                for at in 0..nums.len() {
                    acts.push(Action::Swap((0..k).map(|i| nums[(at + i) % nums.len()]).collect()));
                }
            }
            acts.push(Action::Swap(vec![3; 300]));
            for a in acts {
                whole.push((REQUEST, Req::Get(a.clone()).bytes()));
                whole.push((REQUEST, Req::Exec(a).bytes()));
            }
            for k in 0..4u32 {
                let mut b = k.to_le_bytes().to_vec();
                for i in 0..k as usize {
                    b.extend_from_slice(&nums[(i * 3 + 4) % nums.len()].to_le_bytes());
                }
                whole.push((BASKET, b));
            }
            for n in &nums {
                let mut b = 1u32.to_le_bytes().to_vec();
                b.extend_from_slice(&n.to_le_bytes());
                whole.push((BASKET, b));
            }
            let two: Vec<u8> = spread.as_ref().iter().chain(key(9).as_ref().iter()).copied().collect();
            whole.push((ASSET, two.clone()));
            for f in 0..=255u8 {
                let mut b = two[..32].to_vec();
                b.push(f);
                whole.push((PARAM, b));
            }
            whole.push((ADDRESS, two[..32].to_vec()));
            whole.push((ADDRESS, vec![0; 32]));
            whole.push((ADDRESS, vec![255; 32]));
        }
    }
    // every reader of the same bytes
    let readers = |k: u8, b: &[u8]| -> Vec<(u8, Vec<u8>)> {
        let mut v = vec![(k, b.to_vec())];
        if k == STATE {
            v.push((STATE_FRONT, b.to_vec()));
            v.push((STATE_SCHEMA, b.to_vec()));
        }
        if k == REQUEST {
            v.push((REQUEST_SCHEMA, b.to_vec()));
            if b.len() > 9 {
                v.push((if b[8] == 0 { INIT } else { ACTION }, b[9..].to_vec()));
            }
        }
        v
    };
    let mut datas: Vec<Vec<u8>> = vec![vec![CONSTANTS]];
    let mut put = |k: u8, b: &[u8]| {
        for (k, b) in readers(k, b) {
            let mut d = vec![k];
            d.extend_from_slice(&b);
            datas.push(d);
        }
    };
    let n = whole.len();
    for (i, (k, b)) in whole.iter().enumerate() {
        put(*k, b);
        let short = b.len() < 200;
        // some are taken apart completely: cut off and followed everywhere, every byte changed
        let apart = *k != REQUEST && *k != STATE && *k != PARAM || i % (n / if thorough { 32 } else { 12 } + 1) == 0 || (*k == REQUEST && b[8] != 0 && short);
        if !apart {
            continue;
        }
        for l in 0..b.len() {
            put(*k, &b[..l]);
        }
        for l in 1..9 {
            for v in [0u8, 1, 0xff] {
                let mut x = b.clone();
                x.extend(std::iter::repeat(v).take(l));
                put(*k, &x);
            }
        }
        for at in 0..b.len() {
            let vals: Vec<u8> = if (thorough && short) || at < 16 { (0..=255).collect() } else { vec![0, 1, 2, 0xff, b[at] ^ 1] };
            for v in vals {
                if v != b[at] {
                    let mut x = b.clone();
                    x[at] = v;
                    put(*k, &x);
                }
            }
        }
    }
    datas.sort();
    datas.dedup();
    let mut w = World::new();
    w.program("codec", codec_id());
    let buf = w.add("outcome", key(0), codec_id(), 1, vec![0; 16]);
    let what = ["state", "request", "action", "init", "basket", "asset", "param", "address", "state (in front)", "state by description", "request by description", "constants"];
    let ops = datas.into_iter().map(|d| op("format", format!("{}: {}", what[d[0] as usize], hex(&d[1..])), Ix { prog: codec_id(), data: d, accs: vec![buf], signers: vec![] })).collect();
    let init = w.st.clone();
    vec![Scn { name: name.into(), w, init, ops, judge: Box::new(judge) }]
}
