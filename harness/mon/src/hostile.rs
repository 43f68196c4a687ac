//! Turns a valid instruction into one an attacker might send.

use crate::abi::*;
use crate::bank::*;
use crate::rng::Rng;
use solana_program::pubkey::Pubkey;
use solana_program::system_program;
use std::sync::Arc;

/// The attacker's accounts: a wallet that signs whatever it likes.
pub fn attacker() -> Pubkey {
    Pubkey::new_from_array([66; 32])
}

/// Contents of a look-alike: every key the attacker would rather be is
/// replaced by the attacker's.
fn patched(data: &[u8], victims: &[Pubkey], rng: &mut Rng) -> Vec<u8> {
    let mut d = data.to_vec();
    if rng.chance(70) {
        for v in victims {
            let mut i = 0;
            while i + 32 <= d.len() && i < 4096 {
                if d[i..i + 32] == v.to_bytes() {
                    d[i..i + 32].copy_from_slice(attacker().as_ref());
                    i += 32;
                } else {
                    i += 1;
                }
            }
        }
    }
    d
}

fn same_kind(bank: &Bank, key: &Pubkey) -> Vec<Pubkey> {
    let a = bank.get(key);
    bank.accs
        .iter()
        .filter(|(k, b)| {
            *k != key
                && b.owner == a.owner
                && b.data.len() == a.data.len()
                && (a.data.len() < 8
                    || a.owner == spl_token::ID
                    || a.data[..8] == b.data[..8])
        })
        .map(|(k, _)| *k)
        .collect()
}

pub fn mutate(
    ix: &mut Ix,
    bank: &mut Bank,
    users: &[Pubkey],
    rng: &mut Rng,
) -> String {
    ix.plain = false;
    let i = rng.index(ix.metas.len());
    let role = ix.metas[i].role;
    let old = ix.metas[i].key;
    let kind = *rng.weighted(&[
        (20, 0u8),
        (4, 1),
        (12, 2),
        (8, 3),
        (5, 4),
        (8, 5),
        (10, 6),
        (5, 7),
        (8, 8),
        (4, 9),
        (2, 10),
        (10, 11),
        (6, 12),
        (5, 13),
    ]);
    let fresh = rng.key();
    match kind {
        0 => {
            let c = same_kind(bank, &old);
            if c.is_empty() {
                return "nothing".into();
            }
            ix.metas[i].key = *rng.pick(&c);
            format!("{} replaced by another of its kind", role)
        }
        1 => {
            let c: Vec<Pubkey> = bank.accs.keys().copied().collect();
            ix.metas[i].key = *rng.pick(&c);
            format!("{} replaced by an arbitrary account", role)
        }
        2 => {
            let mut a = bank.get(&old);
            a.data = Arc::new(patched(&a.data, users, rng));
            a.owner = *rng.pick(&[system_program::ID, fake_program(), attacker()]);
            a.executable = a.executable && rng.chance(50);
            a.lamports = a.lamports.max(rent(a.data.len()));
            bank.put(fresh, a);
            ix.metas[i].key = fresh;
            format!("{} replaced by a look-alike of another owner", role)
        }
        3 => {
            // a real token account which is not the expected one
            let a = bank.get(&old);
            if !is_token(&a) {
                return "nothing".into();
            }
            let owner = match rng.below(3) {
                0 => tok_owner(&a),
                1 => attacker(),
                _ => *rng.pick(users),
            };
            let mint = tok_mint(&a);
            let amount = tok_amount(&a).min(1_000_000);
            put_token(bank, fresh, &mint, &owner, amount);
            ix.metas[i].key = fresh;
            format!("{} replaced by a token account of {}", role, if owner == tok_owner(&a) { "the same owner" } else { "another owner" })
        }
        4 => {
            let a = bank.get(&old);
            bank.put(
                fresh,
                Acc::new(a.lamports.max(1), vec![0; a.data.len()], a.owner),
            );
            ix.metas[i].key = fresh;
            format!("{} replaced by a zeroed account", role)
        }
        5 => {
            let s: Vec<usize> =
                (0..ix.metas.len()).filter(|j| ix.metas[*j].signer).collect();
            if s.is_empty() {
                return "nothing".into();
            }
            let j = *rng.pick(&s);
            let k = ix.metas[j].key;
            for m in ix.metas.iter_mut().filter(|m| m.key == k) {
                m.signer = false;
            }
            format!("{} does not sign", ix.metas[j].role)
        }
        6 => {
            let s: Vec<usize> =
                (0..ix.metas.len()).filter(|j| ix.metas[*j].signer).collect();
            if s.is_empty() {
                return "nothing".into();
            }
            let j = *rng.pick(&s);
            ix.metas[j].key =
                if rng.chance(50) { attacker() } else { *rng.pick(users) };
            format!("{} signed by somebody else", ix.metas[j].role)
        }
        7 => {
            let j = rng.index(ix.metas.len());
            let k = ix.metas[j].key;
            ix.metas[j].key = old;
            ix.metas[i].key = k;
            format!("{} and {} swapped", role, ix.metas[j].role)
        }
        8 => {
            let j = rng.index(ix.metas.len());
            ix.metas[i].key = ix.metas[j].key;
            format!("{} given as {} too", ix.metas[j].role, role)
        }
        9 => {
            if let Some(m) = ix
                .metas
                .iter_mut()
                .find(|m| m.role == "token_program" || m.role == "system_program")
            {
                m.key = fake_program();
                format!("{} replaced", m.role)
            } else {
                "nothing".into()
            }
        }
        10 => {
            ix.metas[i].key = fresh;
            format!("{} replaced by an address without account", role)
        }
        11 => {
            if ix.nums.is_empty() {
                return "nothing".into();
            }
            let at = rng.index(ix.nums.len());
            let old = ix.nums[at];
            let new = match rng.below(7) {
                0 => 0,
                1 => 1,
                2 => u64::MAX,
                3 => old.wrapping_add(1),
                4 => old.wrapping_sub(1),
                5 => old.wrapping_mul(2),
                _ => rng.log(u64::MAX),
            };
            // arguments are at the end of the data, in order, after keys;
            // found by value and position
            if let Some(off) = ix.num_offset(at) {
                ix.data[off..off + 8].copy_from_slice(&new.to_le_bytes());
                ix.nums[at] = new;
                format!("argument {} is {}", at, new)
            } else {
                "nothing".into()
            }
        }
        13 => {
            // somebody sends lamports to an address before the account exists
            let c: Vec<Pubkey> = ix
                .metas
                .iter()
                .filter(|m| m.writable && !bank.accs.contains_key(&m.key))
                .map(|m| m.key)
                .collect();
            if c.is_empty() {
                return "nothing".into();
            }
            let key = *rng.pick(&c);
            let l = *rng.pick(&[1u64, 890_880, LAMPORTS / 100, LAMPORTS / 100, LAMPORTS]);
            bank.put(key, Acc::new(l, vec![], system_program::ID));
            let s: Vec<usize> =
                (0..ix.metas.len()).filter(|j| ix.metas[*j].signer).collect();
            if s.is_empty() || rng.chance(30) {
                return "lamports sent before creation".into();
            }
            let j = *rng.pick(&s);
            if rng.chance(50) {
                ix.metas[j].signer = false;
            } else {
                ix.metas[j].key = *rng.pick(users);
            }
            format!("lamports sent before creation, {} isn't the right signer", ix.metas[j].role)
        }
        _ => {
            // for a signature of the real owner: everything else the
            // attacker's
            let s: Vec<Pubkey> = ix
                .metas
                .iter()
                .filter(|m| m.signer)
                .map(|m| m.key)
                .collect();
            if s.is_empty() {
                return "nothing".into();
            }
            let c: Vec<usize> = (0..ix.metas.len())
                .filter(|j| {
                    let a = bank.get(&ix.metas[*j].key);
                    is_token(&a) && !ix.metas[*j].signer
                })
                .collect();
            if c.is_empty() {
                return "nothing".into();
            }
            let j = *rng.pick(&c);
            let m = tok_mint(&bank.get(&ix.metas[j].key));
            let cand: Vec<Pubkey> = bank
                .accs
                .iter()
                .filter(|(k, a)| {
                    is_token(a) && tok_mint(a) == m && **k != ix.metas[j].key
                })
                .map(|(k, _)| *k)
                .collect();
            if cand.is_empty() {
                return "nothing".into();
            }
            ix.metas[j].key = *rng.pick(&cand);
            format!("{} replaced by another account of the mint", ix.metas[j].role)
        }
    }
}
