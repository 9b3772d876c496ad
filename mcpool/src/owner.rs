//! assert-owner: succeeds exactly when its data is the owner of its first account.
use crate::explore::*;
use crate::rt::*;
use solana_program::pubkey::Pubkey;

fn judge(_: &World, pre: &St, ix: &Ix, _: &'static str, out: &Out, post: &St) -> Vec<Finding> {
    let mut f = vec![];
    let want = ix.data.len() == 32 && ix.accs.first().map_or(false, |a| pre.owner(*a).as_ref() == ix.data.as_slice());
    if want != out.ok() {
        f.push(("result", format!("answered {:?}, although the data {} the owner of the first account", out, if want { "is" } else { "is not" })));
    }
    if pre != post {
        f.push(("state", "changed something".to_string()));
    }
    f
}

pub fn scenario() -> Vec<Scn> {
    let mut w = World::new();
    let spread = Pubkey::new(&(0..32).map(|i| 0x80u8 >> (i % 8) | i as u8).collect::<Vec<_>>());
    let owners = [solana_program::system_program::ID, spl_token::ID, dex_id(), owner_id(), mk_key(9, 9), Pubkey::new(&[0xff; 32]), spread];
    let accs: Vec<Idx> = owners.iter().enumerate().map(|(i, o)| w.add(&format!("account{}", i), mk_key(1, i as u64), *o, i as u64, vec![i as u8; i * 20])).collect();
    let mut o = vec![];
    let mut put = |l: String, data: Vec<u8>, a: Vec<Idx>, signers: Vec<Idx>| o.push(op("assert", l, Ix { prog: owner_id(), data, accs: a, signers }));
    for (i, own) in owners.iter().enumerate() {
        let b = own.as_ref().to_vec();
        // every owner against every first, second and third account, signing or not
        for (j, a) in accs.iter().enumerate() {
            put(format!("owner {} for account {}", i, j), b.clone(), vec![*a], vec![]);
            put(format!("owner {} for account {} (signer)", i, j), b.clone(), vec![*a], vec![*a]);
            put(format!("key of account {} for account {}", i, j), w.key(accs[i]).as_ref().to_vec(), vec![*a], vec![]);
            for c in &accs {
                put(format!("owner {} for accounts {}, {}", i, j, c), b.clone(), vec![*a, *c], vec![]);
                put(format!("owner {} for accounts {}, {}, {}", i, j, c, i), b.clone(), vec![*a, *c, accs[i]], vec![*c]);
            }
        }
        put(format!("owner {} without accounts", i), b.clone(), vec![], vec![]);
        // every bit flipped, every length
        for k in 0..256 {
            let mut d = b.clone();
            d[k / 8] ^= 1 << (k % 8);
            put(format!("owner {} with bit {} flipped", i, k), d, vec![accs[i]], vec![]);
        }
        for k in 0..32 {
            for v in 0..=255u8 {
                let mut d = b.clone();
                d[k] = v;
                put(format!("owner {} with byte {} = {}", i, k, v), d, vec![accs[i]], vec![]);
            }
            for l in k + 1..32 {
                let mut d = b.clone();
                d.swap(k, l);
                put(format!("owner {} with bytes {} and {} swapped", i, k, l), d.clone(), vec![accs[i]], vec![]);
                let mut d = b.clone();
                d[k] ^= 0x5a;
                d[l] ^= 0x5a;
                put(format!("owner {} with bytes {} and {} changed", i, k, l), d, vec![accs[i]], vec![]);
            }
        }
        for n in 0..100 {
            let mut d: Vec<u8> = b.iter().cycle().take(n).copied().collect();
            put(format!("owner {} over {} bytes", i, n), d.clone(), vec![accs[i]], vec![]);
            d = b.clone();
            d.resize(n, 0);
            put(format!("owner {} resized to {}", i, n), d, vec![accs[i]], vec![]);
            let mut d = vec![0u8; n.saturating_sub(32)];
            d.extend_from_slice(&b);
            put(format!("owner {} after {} zeros", i, n), d, vec![accs[i]], vec![]);
        }
        for v in 0..=255u8 {
            put(format!("constant {} for account {}", v, i), vec![v; 32], vec![accs[i]], vec![]);
        }
    }
    let init = w.st.clone();
    vec![Scn { name: "owner".into(), w, init, ops: o, judge: Box::new(judge) }]
}
