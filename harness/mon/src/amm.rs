//! Reference model and monitor of the AMM program.

use crate::abi::*;
use crate::bank::*;
use crate::farm::{can_transfer, obs_case, Spec};
use crate::num::*;
use crate::obs::*;
use solana_program::pubkey::Pubkey;
use solana_program::system_program;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

/// Relative errors the numerics are held to.
pub const Y_TOLERANCE: u64 = 1_000_000;

#[derive(Clone, Debug)]
pub struct GRes {
    pub mint: Pubkey,
    pub vault: Pubkey,
    /// as the pool must record it
    pub amount: u64,
    /// sent to the vault by third parties
    pub donated: u128,
}

#[derive(Clone, Debug)]
pub struct GPool {
    pub admin: Pubkey,
    pub mint: Pubkey,
    pub toll_wallet: Pubkey,
    pub fee: u64,
    /// 0: constant product
    pub amp: u64,
    pub res: Vec<GRes>,
}

#[derive(Clone)]
pub struct AmmWorld {
    pub bank: Bank,
    pub pools: BTreeMap<Pubkey, GPool>,
    pub toll: Option<Pubkey>,
    pub settings: Option<Pubkey>,
    pub discounts: BTreeMap<Pubkey, (u64, u64)>,
    pub users: Vec<Pubkey>,
    pub mints: Vec<Pubkey>,
    pub wallets: BTreeMap<(Pubkey, Pubkey), Pubkey>,
}

fn fee_of(sell: u64, fee: u64, disc: u64) -> u64 {
    let m = MILLION as u128;
    let n = sell as u128 * (fee as u128).min(1 << 40) * (m - (disc as u128).min(m));
    let d = m * m;
    (n / d + (n % d != 0) as u128).min(u64::MAX as u128) as u64
}

/// round(fee * 0.333333 / n)
pub fn toll_of(fee: u64, n: usize) -> u64 {
    let num = fee as u128 * 333_333;
    let den = MILLION as u128 * n as u128;
    ((2 * num + den) / (2 * den)) as u64
}

fn floor_div(a: u64, b: u64, c: u64) -> u128 {
    a as u128 * b as u128 / c as u128
}

/// The relative error of the invariant which 18 decimals lead to: the reserves
/// are scaled down by a power of 1000, so that they sum up to at most 1000, and
/// multiplied in some order.
pub fn invariant_tolerance(xs: &[u64]) -> f64 {
    let mut s: Vec<f64> = xs.iter().map(|x| *x as f64).collect();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut unit = 1.0;
    while s.iter().sum::<f64>() / unit > 1000.0 {
        unit *= 1000.0;
    }
    let mut product = 1.0;
    let mut rel = 1e-6;
    for x in s {
        product *= x / unit;
        rel += 4e-18 / f64::min(product, 1.0);
    }
    rel
}

/// The program refuses to work with reserves whose scaled down product is below
/// 1e-12, see known-findings.txt.
pub fn too_imbalanced(xs: &[u64]) -> bool {
    let (product, _) = scaled_product(xs);
    product * (1.0 - 2.0 * invariant_tolerance(xs)) < 1.000_001e-12
}

fn scaled_product(xs: &[u64]) -> (f64, f64) {
    let sum: f64 = xs.iter().map(|x| *x as f64).sum();
    let mut unit = 1.0;
    while sum / unit > 1000.0 {
        unit *= 1000.0;
    }
    (xs.iter().map(|x| *x as f64 / unit).product(), unit)
}

/// Whether the numbers on the stable curve are certainly within the range of
/// the decimals, and the reserves aren't too imbalanced.
fn in_stable_range(amp: u64, xs: &[u64]) -> bool {
    let n = xs.len() as f64;
    let (product, unit) = scaled_product(xs);
    let sum: f64 = xs.iter().map(|x| *x as f64).sum();
    // whatever the magnitude, and with each product of reserves in range
    let share: f64 = xs.iter().map(|x| *x as f64 / sum).product();
    share > 1e-9 && n.powf(2.0 * n) * amp as f64 * (sum / unit) * product.max(1.0) < 1e38
}

/// Whether a swap does not overflow the decimals (up to 6e39): the program
/// multiplies all reserves but one, and the power of 1000 by which it scales
/// the invariant down.
fn swap_in_range(xs: &[u64]) -> bool {
    let sum: f64 = xs.iter().map(|x| *x as f64).sum();
    sum.powf(xs.len() as f64 - 1.0) < 1e38
}

/// The buy reserve on the curve of the stored invariant, rounded down.
pub fn stable_y(amp: u64, others: &[u64], d: Big, shift: u32) -> Option<u128> {
    let (mut lo, mut hi) = (0u128, 1u128 << 70);
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        match stable_y_sign(amp, others, Big::of(mid), d, shift)? {
            Ordering::Greater => hi = mid,
            _ => lo = mid,
        }
    }
    Some(lo)
}

/// The invariant times 2^20, rounded down.
pub fn stable_d(amp: u64, xs: &[u64]) -> Option<u128> {
    let (mut lo, mut hi) = (0u128, 1u128 << 88);
    while hi - lo > 1 {
        let mid = (lo + hi) / 2;
        match stable_d_sign(amp, xs, Big::of(mid), 20)? {
            Ordering::Greater => hi = mid,
            _ => lo = mid,
        }
    }
    Some(lo)
}

impl AmmWorld {
    fn pool_acc(&self, key: &Pubkey) -> Option<PoolAcc> {
        let a = self.bank.get(key);
        is_pool(&a).then(|| PoolAcc::parse(&a.data).unwrap())
    }

    /// Pairs of vault and wallet given as remaining accounts.
    fn pairs(&self, ix: &Ix, p: &PoolAcc, s: &mut Spec) -> Vec<(Pubkey, Pubkey, usize)> {
        let rem: Vec<Pubkey> = ix.metas.iter().filter(|m| m.role == REM).map(|m| m.key).collect();
        let n = p.reserves().len();
        if !s.need(rem.len() == 2 * n, &["A11"], || {
            format!("{} remaining accounts for {} reserves", rem.len(), n)
        }) {
            return vec![];
        }
        let mut seen = BTreeSet::new();
        let mut out = vec![];
        for c in rem.chunks(2) {
            let (v, w) = (self.bank.get(&c[0]), self.bank.get(&c[1]));
            if !s.need(is_token(&v) && is_token(&w), &["A11"], || {
                "a remaining account is no token account".into()
            }) {
                continue;
            }
            let i = p.reserves().iter().position(|r| r.vault == c[0]);
            match i {
                None => s.fail(&["A11"], "a vault is not the pool's"),
                Some(i) => {
                    s.need(p.slots[i].mint == tok_mint(&v), &["A11"], || "vault of another mint".into());
                    s.need(tok_mint(&v) == tok_mint(&w), &["A11"], || {
                        "vault and wallet of different mints".into()
                    });
                    s.need(seen.insert(i), &["A11"], || "a vault given twice".into());
                    out.push((c[0], c[1], i));
                }
            }
        }
        out
    }

    fn limits(&self, ix: &Ix, p: &PoolAcc, s: &mut Spec) -> Vec<Option<u64>> {
        let mut out = vec![None; p.reserves().len()];
        for (m, v) in &ix.limits {
            match p.reserves().iter().position(|r| r.mint == *m) {
                None => s.fail(&["A06"], "a limit for a mint the pool does not have"),
                // the last one counts
                Some(i) => out[i] = Some(*v),
            }
        }
        if out.iter().any(|l| l.is_none()) {
            s.fail(&["A06"], "no limit for one of the mints");
        }
        out
    }

    /// The discount the model knows of for a swap now.
    fn discount(&self, user: &Pubkey) -> u64 {
        match self.discounts.get(user) {
            Some((amount, until)) if *amount > 0 && self.bank.slot <= *until => *amount,
            _ => 0,
        }
    }

    pub fn spec(&self, ix: &Ix) -> Spec {
        let mut spec = Spec::default();
        let s = &mut spec;
        let bank = &self.bank;
        let now = bank.slot;
        let signed = |role: &str| ix.signed(&ix.key(role));
        macro_rules! need {
            ($c:expr, [$($p:expr),*], $($m:tt)*) => {
                s.need($c, &[$($p),*], || format!($($m)*))
            };
        }
        let roles: BTreeSet<&str> = ix.metas.iter().map(|m| m.role).collect();
        if roles.contains("token_program") {
            need!(ix.key("token_program") == spl_token::ID, ["A11"], "token program replaced");
        }
        if roles.contains("system_program") {
            need!(ix.key("system_program") == system_program::ID, ["A11"], "system program replaced");
        }
        let pool = if roles.contains("pool") && ix.name != "create_pool" {
            let p = self.pool_acc(&ix.key("pool"));
            need!(p.is_some(), ["A11", "X01"], "no pool of the program");
            p
        } else {
            None
        };
        let funded = |role: &str| {
            let a = bank.get(&ix.key(role));
            a.owner == system_program::ID && a.data.is_empty() && a.lamports >= LAMPORTS / 2
        };
        match ix.name {
            "create_program_toll" | "create_discount_settings" => {
                let (role, key, name) = if ix.name == "create_program_toll" {
                    ("program_toll", toll_pda(), "ProgramToll")
                } else {
                    ("discount_settings", discount_settings_pda(), "DiscountSettings")
                };
                need!(signed("program_authority"), ["A09"], "the program's authority does not sign");
                need!(ix.key("amm") == amm::ID, ["A09"], "not the program");
                need!(ix.key("amm_metadata") == metadata_key(), ["A09"], "not the program's metadata");
                need!(
                    upgrade_authority(&bank.get(&metadata_key())) == Some(ix.key("program_authority")),
                    ["A09"],
                    "signer is not the upgrade authority"
                );
                need!(ix.key(role) == key, ["A09"], "not the settings account");
                let a = bank.get(&key);
                need!(
                    a.owner == system_program::ID && authority_of(&a, name).is_none(),
                    ["A09"],
                    "settings exist already"
                );
                if funded("program_authority") {
                    s.must.push("A09");
                }
            }
            "put_discount" => {
                let (amount, until) = (ix.nums[0], ix.nums[1]);
                let st = bank.get(&ix.key("discount_settings"));
                need!(
                    ix.key("discount_settings") == discount_settings_pda()
                        && authority_of(&st, "DiscountSettings") == Some(ix.key("authority"))
                        && self.settings == Some(ix.key("authority")),
                    ["A09"],
                    "not the discount authority"
                );
                need!(signed("authority"), ["A09"], "the discount authority does not sign");
                need!(
                    ix.key("discount") == discount_pda(&ix.keys[0]),
                    ["A12"],
                    "discount of another user"
                );
                need!(amount <= MILLION, ["A09", "A12"], "discount of more than 100%");
                need!(until > now, ["A09", "A12"], "discount ends at {} but it is {}", until, now);
                let exists = discount_of(&bank.get(&discount_pda(&ix.keys[0]))).is_some();
                if exists || (ix.meta("authority").writable && funded("authority")) {
                    s.must.push("A12");
                }
            }
            "set_pool_swap_fee" => {
                if let Some(p) = &pool {
                    need!(p.admin == ix.key("admin"), ["A09", "A04"], "not the pool's admin");
                    need!(signed("admin"), ["A09", "A04"], "the admin does not sign");
                    need!(ix.nums[0] <= MAX_FEE, ["A04"], "fee of more than 1%");
                    s.must.push("A04");
                }
            }
            "create_pool" => {
                need!(signed("admin"), ["A08"], "the admin does not sign");
                let pk = ix.key("pool");
                let a = bank.get(&pk);
                need!(a.owner == system_program::ID && a.data.is_empty(), ["A08"], "the account is in use");
                need!(signed("pool"), ["A08"], "the pool account does not sign");
                let signer = pool_signer(&pk);
                need!(ix.key("pool_signer") == signer, ["A08"], "signer of another pool");
                let toll = authority_of(&bank.get(&ix.key("program_toll")), "ProgramToll");
                need!(
                    ix.key("program_toll") == toll_pda() && toll.is_some() && toll == self.toll,
                    ["A08"],
                    "not the program's toll"
                );
                let m = bank.get(&ix.key("lp_mint"));
                if need!(is_mint(&m), ["A08"], "no LP mint") {
                    need!(mint_authority(&m) == Some(signer), ["A08"], "LP tokens can be minted by somebody else");
                    need!(mint_freeze(&m).is_none(), ["A08"], "LP tokens can be frozen");
                }
                let w = bank.get(&ix.key("program_toll_wallet"));
                if need!(is_token(&w), ["A08"], "no toll wallet") {
                    need!(tok_mint(&w) == ix.key("lp_mint"), ["A08"], "toll wallet of another mint");
                    need!(Some(tok_owner(&w)) == toll, ["A08"], "toll wallet of somebody else");
                }
                let vaults: Vec<Pubkey> =
                    ix.metas.iter().filter(|m| m.role == REM).map(|m| m.key).collect();
                need!((2..=4).contains(&vaults.len()), ["A08"], "{} vaults", vaults.len());
                let mut mints = BTreeSet::new();
                for v in &vaults {
                    let v = bank.get(v);
                    if !need!(is_token(&v), ["A08"], "vault is no token account") {
                        continue;
                    }
                    need!(mints.insert(tok_mint(&v)), ["A08"], "two vaults of one mint");
                    need!(tok_owner(&v) == signer, ["A08"], "vault of somebody else");
                    need!(tok_delegate(&v).is_none(), ["A08"], "vault has a delegate");
                    need!(tok_close_authority(&v).is_none(), ["A08"], "vault has a close authority");
                    need!(!tok_frozen(&v), ["A08"], "vault is frozen");
                    if is_mint(&m) {
                        need!(
                            (mint_supply(&m) == 0) == (tok_amount(&v) == 0),
                            ["A08"],
                            "LP supply {} but vault holds {}",
                            mint_supply(&m),
                            tok_amount(&v)
                        );
                    }
                }
                if funded("admin") && (ix.nums[0] == 0 || mint_supply(&m) == 0) {
                    s.must.push("A08");
                }
            }
            "deposit_liquidity" | "redeem_liquidity" => {
                let redeem = ix.name == "redeem_liquidity";
                let p = match &pool {
                    Some(p) => p,
                    None => return spec,
                };
                let sg = if redeem { "pool_signer" } else { "pool_signer_pda" };
                need!(ix.key(sg) == pool_signer(&ix.key("pool")), ["A11"], "signer of another pool");
                need!(ix.key("lp_mint") == p.mint, ["A11"], "LP mint of another pool");
                let lw = bank.get(&ix.key("lp_token_wallet"));
                need!(
                    is_token(&lw) && tok_mint(&lw) == p.mint,
                    ["A11"],
                    "no LP wallet of the pool"
                );
                let user = ix.key("user");
                need!(signed("user"), ["A11"], "the user does not sign");
                let supply = mint_supply(&bank.get(&p.mint));
                let pairs = self.pairs(ix, p, s);
                let lim = self.limits(ix, p, s);
                if redeem {
                    let b = ix.nums[0];
                    if is_token(&lw) {
                        need!(
                            tok_amount(&lw) >= b,
                            ["A06"],
                            "burning {} of {} LP tokens",
                            b,
                            tok_amount(&lw)
                        );
                        need!(
                            tok_owner(&lw) == user
                                || (tok_delegate(&lw) == Some(user) && tok_delegated(&lw) >= b),
                            ["A11"],
                            "LP tokens of somebody else"
                        );
                    }
                    if supply > 0 && b <= supply {
                        let mut sure = b > 0 && pairs.len() == lim.len();
                        for (i, l) in lim.iter().enumerate() {
                            let fair = floor_div(p.slots[i].tokens, b, supply);
                            let l = l.unwrap_or(0) as u128;
                            need!(l <= fair, ["A06"], "minimum {} of {}", l, fair);
                            let slack = if b == supply { 0 } else { 2 + p.slots[i].tokens as u128 / 500_000_000_000_000_000 };
                            sure &= l == 0 || l + slack <= fair;
                        }
                        for (_, w, _) in &pairs {
                            need!(tok_owner(&bank.get(w)) == user, ["A11"], "wallet of somebody else");
                        }
                        if sure {
                            s.must.push("A10");
                        }
                        if p.stable.is_some() && b < supply {
                            let left: Vec<u64> = p
                                .reserves()
                                .iter()
                                .map(|r| {
                                    let out = floor_div(r.tokens, b, supply) as u64;
                                    r.tokens - out
                                })
                                .collect();
                            s.imbalanced = left.iter().all(|x| *x > 0) && too_imbalanced(&left);
                        }
                    } else {
                        s.fail(&["A06"], "more LP tokens than there are");
                    }
                } else {
                    let first = supply == 0;
                    let mut sure = pairs.len() == lim.len();
                    for l in lim.iter().flatten() {
                        need!(*l > 0, ["A06"], "deposit of zero tokens");
                    }
                    let mut lp = u128::MAX;
                    for (v, w, i) in &pairs {
                        let max = match lim[*i] {
                            Some(m) => m,
                            None => return spec,
                        };
                        let wa = bank.get(w);
                        need!(tok_owner(&wa) == user, ["A11"], "wallet of somebody else");
                        let n = if first { max as u128 } else { 1 };
                        can_transfer(bank, ix, s, *w, *v, user, signed("user"), n, "A11", "A11", "A06");
                        sure &= tok_amount(&wa) >= max
                            && p.slots[*i].tokens.checked_add(max).is_some()
                            && tok_amount(&bank.get(v)).checked_add(max).is_some();
                        if !first && p.slots[*i].tokens > 0 {
                            lp = lp.min(floor_div(supply, max, p.slots[*i].tokens));
                        }
                        sure &= first || p.slots[*i].tokens > 0;
                    }
                    sure &= first || (lp >= 3 && lp.saturating_add(supply as u128) <= u64::MAX as u128 / 2);
                    let after: Vec<u64> = p
                        .reserves()
                        .iter()
                        .zip(&lim)
                        .map(|(r, l)| r.tokens.saturating_add(l.unwrap_or(0)))
                        .collect();
                    let before: Vec<u64> = p.reserves().iter().map(|r| r.tokens).collect();
                    sure &= match p.stable {
                        None => true,
                        Some((amp, _)) => {
                            if first {
                                before.iter().all(|x| *x == 0) && in_stable_range(amp, &after)
                            } else {
                                in_stable_range(amp, &before)
                                    && after.iter().all(|x| *x < 1 << 60)
                            }
                        }
                    };
                    if sure {
                        s.must.push("A07");
                    }
                }
            }
            "swap" => {
                let p = match &pool {
                    Some(p) => p,
                    None => return spec,
                };
                let user = ix.key("user");
                need!(signed("user"), ["A11"], "the user does not sign");
                need!(ix.key("discount") == discount_pda(&user), ["A04", "A11"], "discount of another user");
                need!(ix.key("pool_signer") == pool_signer(&ix.key("pool")), ["A11"], "signer of another pool");
                need!(ix.key("lp_mint") == p.mint, ["A11"], "LP mint of another pool");
                need!(ix.key("program_toll_wallet") == p.toll_wallet, ["A05", "A11"], "another toll wallet");
                let supply = mint_supply(&bank.get(&p.mint));
                need!(supply > 0, ["A02"], "swap without liquidity");
                let find = |role: &str| p.reserves().iter().position(|r| r.vault == ix.key(role));
                let (i, j) = (find("sell_vault"), find("buy_vault"));
                need!(i.is_some(), ["A11"], "sell vault is not the pool's");
                need!(j.is_some(), ["A11"], "buy vault is not the pool's");
                let (sell, min) = (ix.nums[0], ix.nums[1]);
                need!(sell > 0, ["A02"], "swap of nothing");
                can_transfer(
                    bank, ix, s, ix.key("sell_wallet"), ix.key("sell_vault"), user, signed("user"),
                    sell as u128, "A11", "A11", "A06",
                );
                can_transfer(
                    bank, ix, s, ix.key("buy_vault"), ix.key("buy_wallet"), pool_signer(&ix.key("pool")),
                    true, min as u128, "A11", "A11", "A06",
                );
                let (i, j) = match (i, j) {
                    (Some(i), Some(j)) => (i, j),
                    _ => return spec,
                };
                need!(i != j, ["A11"], "swap of a mint with itself");
                if i == j {
                    return spec;
                }
                let f = fee_of(sell, p.fee, self.discount(&user));
                let (x, y) = (p.slots[i].tokens, p.slots[j].tokens);
                let net = sell.saturating_sub(f);
                need!(net < x, ["A02"], "selling {} net into a reserve of {}", net, x);
                if p.reserves().iter().any(|r| r.tokens == 0) {
                    s.fail(&["A02"], "swap with an empty reserve");
                    return spec;
                }
                if let (Some((amp, inv)), true) = (p.stable, net < x) {
                    let before: Vec<u64> = p.reserves().iter().map(|r| r.tokens).collect();
                    let others: Vec<u64> = (0..before.len())
                        .filter(|k| *k != j)
                        .map(|k| if k == i { x.saturating_add(net) } else { before[k] })
                        .collect();
                    let d20 = Big::limbs(&inv).shl(20).div(Big::of(WAD));
                    let toll_wallet = bank.get(&p.toll_wallet);
                    if let Some(root) = stable_y(amp, &others, d20, 20) {
                        let tol = (y / Y_TOLERANCE) as u128 + 2;
                        let out = (y as u128).saturating_sub(root + tol);
                        let mut after = others;
                        after.push(root.max(1) as u64);
                        if min as u128 + 1 < out
                            && amp < 1_000_000_000
                            && in_stable_range(amp, &before)
                            && in_stable_range(amp, &after)
                            && swap_in_range(&before)
                            && swap_in_range(&after)
                            && x.checked_add(sell).is_some()
                            && tok_amount(&bank.get(&ix.key("sell_vault"))).checked_add(sell).is_some()
                            && is_token(&toll_wallet)
                            && supply < u64::MAX / 2
                        {
                            s.must.push("A03");
                        }
                    }
                }
                if p.stable.is_none() && net < x {
                    let out = const_out(x, y, net);
                    let slack = (x as u128 + net as u128 > WAD as u128 || y > WAD) as u64;
                    need!(min <= out + slack, ["A06"], "minimum {} of {}", min, out);
                    let k = p
                        .reserves()
                        .iter()
                        .fold(Big::of(2u64), |k, r| k * Big::of(r.tokens));
                    let small = k.u128().map(|k| k < 1u128 << 120).unwrap_or(false);
                    let toll_wallet = bank.get(&p.toll_wallet);
                    if min < out.max(1)
                        && small
                        && x.checked_add(sell).is_some()
                        && tok_amount(&bank.get(&ix.key("sell_vault"))).checked_add(sell).is_some()
                        && is_token(&toll_wallet)
                        && supply < u64::MAX / 2
                    {
                        s.must.push("A02");
                    }
                }
            }
            other => panic!("unknown instruction {}", other),
        }
        spec
    }

    pub fn step(&mut self, ix: &Ix, obs: &mut Obs) -> bool {
        obs.step += 1;
        let spec = self.spec(ix);
        let pre = self.bank.clone();
        let must: &[&'static str] = if spec.fails.is_empty() && ix.plain { &spec.must } else { &[] };
        crate::watch::begin(obs.step, ix.name, must);
        let res = self.bank.run(ix);
        crate::watch::end();
        obs.note(|| {
            format!(
                "slot {} {}{} {:?} {} -> {}",
                pre.slot,
                ix.name,
                if ix.limits.is_empty() { String::new() } else { format!(" {:?}", ix.limits.iter().map(|l| (l.0.to_string()[..5].to_string(), l.1)).collect::<Vec<_>>()) },
                ix.nums,
                ix.metas
                    .iter()
                    .map(|m| format!(
                        "{}={}{}{}",
                        m.role,
                        &m.key.to_string()[..5],
                        if m.signer { "!" } else { "" },
                        if m.writable { "" } else { "-" }
                    ))
                    .collect::<Vec<_>>()
                    .join(" "),
                if res.ok { "ok".to_string() } else { format!("FAILED {} {:?}", res.err, res.logs.last()) }
            )
        });
        obs.count(&format!("{} {}", ix.name, if res.ok { "ok" } else { "refused" }));
        if res.panicked {
            obs.count("panics");
        }
        let argh = obs_case(ix, pre.slot);
        let mut tags: BTreeSet<&'static str> = BTreeSet::new();
        for (props, _) in &spec.fails {
            tags.extend(props.iter());
        }
        for t in &tags {
            obs.eval(t, argh, || format!("{} must be refused: {}", ix.name, spec.fails[0].1));
        }
        if !res.ok {
            obs.eval("X01", argh, || format!("{} refused, changes nothing", ix.name));
            if spec.fails.is_empty() && ix.plain {
                for p in &spec.must {
                    obs.eval(p, argh, || format!("{} must succeed", ix.name));
                    let known = spec.imbalanced
                        && *p == "A10"
                        && format!("{}", res.err).starts_with("Custom(");
                    obs.refused_imbalanced |= known;
                    obs.viol_known(
                        &[p],
                        known.then(|| "redeem-extreme-imbalance".to_string()),
                        format!("{} {:?} failed although nothing forbids it: {} {:?}", ix.name, ix.nums, res.err, res.logs),
                    );
                }
            }
            return false;
        }
        for (props, what) in &spec.fails {
            obs.viol(props, format!("{} succeeded although it must fail: {}", ix.name, what));
        }
        for p in &spec.must {
            obs.eval(p, argh, || format!("{} succeeded, as it must", ix.name));
        }
        let broken = !spec.fails.is_empty();
        self.effects(ix, &pre, &res, broken, argh, obs);
        true
    }

    fn effects(
        &mut self,
        ix: &Ix,
        pre: &Bank,
        res: &TxResult,
        broken: bool,
        argh: u64,
        obs: &mut Obs,
    ) {
        let post = self.bank.clone();
        let role_of = |k: &Pubkey| ix.metas.iter().find(|m| m.key == *k).map(|m| m.role).unwrap_or("?");
        let dtok = |k: &Pubkey| amount(&post, k) as i128 - amount(pre, k) as i128;
        let dsup = |k: &Pubkey| mint_supply(&post.get(k)) as i128 - mint_supply(&pre.get(k)) as i128;
        // expected contents of accounts of the program
        let mut want: BTreeMap<Pubkey, Vec<u8>> = BTreeMap::new();
        // fields decided elsewhere
        let mut tokens: BTreeMap<Pubkey, i128> = BTreeMap::new();
        let mut supply: BTreeMap<Pubkey, i128> = BTreeMap::new();
        let mut sent: Vec<(Pubkey, i128)> = vec![];
        let mut lamports: BTreeSet<Pubkey> = BTreeSet::new();
        let mut add = |k: Pubkey, d: i128| *tokens.entry(k).or_default() += d;
        let mut move_prop = "A01";
        let mut state_prop = "X01";

        let pk = if ix.metas.iter().any(|m| m.role == "pool") { ix.key("pool") } else { Pubkey::default() };
        let parse = |b: &Bank| PoolAcc::parse(&b.get(&pk).data);
        let trading = matches!(ix.name, "swap" | "deposit_liquidity" | "redeem_liquidity");
        if trading {
            let (p0, p1) = match (parse(pre), parse(&post)) {
                (Some(a), Some(b)) => (a, b),
                _ => {
                    obs.viol(&["X01", "A01"], format!("{} destroyed the pool", ix.name));
                    self.resync();
                    return;
                }
            };
            let n = p0.reserves().len();
            // records: what the pool says it took in or paid
            let rec: Vec<i128> = (0..n)
                .map(|i| p1.slots[i].tokens as i128 - p0.slots[i].tokens as i128)
                .collect();
            let lp = dsup(&p0.mint);
            supply.insert(p0.mint, lp);
            let mut d = pre.get(&pk).data.to_vec();
            for i in 0..n {
                let o = 8 + 128 + 8 + i * 72;
                d[o..o + 8].copy_from_slice(&p1.slots[i].tokens.to_le_bytes());
            }
            if p0.stable.is_some() {
                let o = POOL_HEAD + 9;
                d[o..o + 24].copy_from_slice(&post.get(&pk).data[o..o + 24]);
            }
            want.insert(pk, d);
            if ix.name == "swap" {
                let pos = |role: &str| p0.reserves().iter().position(|r| r.vault == ix.key(role));
                let sell = ix.nums[0] as i128;
                let (i, j) = (pos("sell_vault"), pos("buy_vault"));
                if let (Some(i), Some(j), false) = (i, j, broken) {
                    let b = -rec[j];
                    add(ix.key("sell_wallet"), -sell);
                    add(ix.key("sell_vault"), sell);
                    add(ix.key("buy_vault"), -b);
                    add(ix.key("buy_wallet"), b);
                    add(ix.key("program_toll_wallet"), lp);
                    sent.push((ix.key("buy_wallet"), b));
                    sent.push((ix.key("program_toll_wallet"), lp));
                    let others = (0..n).any(|k| k != i && k != j && rec[k] != 0);
                    if rec[i] != sell || others || b < 0 {
                        obs.viol(
                            &["A01"],
                            format!("swap of {} recorded reserve changes {:?} (sell {}, buy {})", sell, rec, i, j),
                        );
                    } else {
                        self.judge_swap(ix, &p0, &p1, i, j, b as u64, lp, pre, argh, obs);
                    }
                }
            } else if !broken {
                let rem: Vec<Pubkey> =
                    ix.metas.iter().filter(|m| m.role == REM).map(|m| m.key).collect();
                for c in rem.chunks(2) {
                    if let Some(i) = p0.reserves().iter().position(|r| r.vault == c[0]) {
                        add(c[0], rec[i]);
                        add(c[1], -rec[i]);
                        if rec[i] < 0 {
                            sent.push((c[1], -rec[i]));
                        }
                    }
                }
                add(ix.key("lp_token_wallet"), lp);
                if lp > 0 {
                    sent.push((ix.key("lp_token_wallet"), lp));
                }
                if ix.name == "deposit_liquidity" {
                    self.judge_deposit(ix, &p0, &rec, lp, pre, argh, obs);
                } else {
                    self.judge_redeem(ix, &p0, &rec, lp, pre, argh, obs);
                }
            }
            obs.eval("A01", argh, || {
                format!("{} {:?} at slot {}: reserves changed by {:?}, LP supply by {}", ix.name, ix.nums, pre.slot, rec, lp)
            });
            let now = mint_supply(&post.get(&p0.mint));
            let told: Vec<&str> = res.logs.iter().filter_map(|l| l.strip_prefix("lp-supply=")).collect();
            obs.eval("A14", hash64(&[key64(&pk), now, ix.name.len() as u64]), || {
                format!("{} of {:?} left {} LP and logged {:?}", ix.name, ix.nums, now, told)
            });
            if !broken && told != [now.to_string()] {
                obs.viol(&["A14"], format!("{} left an LP supply of {} but logged {:?}", ix.name, now, told));
            }
        } else if res.logs.iter().any(|l| l.starts_with("lp-supply=")) {
            obs.viol(&["A14"], format!("{} logged an LP supply: {:?}", ix.name, res.logs));
        }
        match ix.name {
            "create_program_toll" | "create_discount_settings" => {
                let toll = ix.name == "create_program_toll";
                let (role, name, auth) = if toll {
                    ("program_toll", "ProgramToll", ix.key("program_toll_authority"))
                } else {
                    ("discount_settings", "DiscountSettings", ix.key("discount_settings_authority"))
                };
                let k = ix.key(role);
                let mut d = disc(name).to_vec();
                d.extend_from_slice(auth.as_ref());
                let a = post.get(&k);
                if a.owner != amm::ID || a.data[..] != d[..] {
                    obs.viol(&["A09"], format!("{} did not record {}", ix.name, auth));
                }
                want.insert(k, a.data.to_vec());
                lamports.insert(k);
                lamports.insert(ix.key("program_authority"));
                state_prop = "A09";
                if toll {
                    self.toll = Some(auth);
                } else {
                    self.settings = Some(auth);
                }
            }
            "put_discount" => {
                let k = ix.key("discount");
                let mut d = disc("Discount").to_vec();
                d.extend_from_slice(&ix.nums[0].to_le_bytes());
                d.extend_from_slice(&ix.nums[1].to_le_bytes());
                let a = post.get(&k);
                obs.eval("A12", argh, || {
                    format!("discount of {} until {} at slot {} stored", ix.nums[0], ix.nums[1], pre.slot)
                });
                if a.owner != amm::ID || a.data[..] != d[..] || a.lamports < rent(24) {
                    obs.viol(
                        &["A12"],
                        format!("discount {:?} stored as {:?}, owner {}, lamports {}", ix.nums, discount_of(&a), a.owner, a.lamports),
                    );
                }
                want.insert(k, a.data.to_vec());
                if discount_of(&pre.get(&k)).is_none() {
                    lamports.insert(k);
                    lamports.insert(ix.key("authority"));
                }
                state_prop = "A12";
                if !broken {
                    self.discounts.insert(ix.keys[0], (ix.nums[0], ix.nums[1]));
                }
            }
            "set_pool_swap_fee" => {
                let mut d = pre.get(&pk).data.to_vec();
                if let Some(p) = PoolAcc::parse(&d) {
                    d[p.end - 8..p.end].copy_from_slice(&ix.nums[0].to_le_bytes());
                }
                want.insert(pk, d);
                state_prop = "A04";
                obs.eval("A04", argh, || format!("fee set to {}", ix.nums[0]));
                if let Some(g) = self.pools.get_mut(&pk) {
                    g.fee = ix.nums[0];
                }
            }
            "create_pool" => {
                let a = post.get(&pk);
                want.insert(pk, a.data.to_vec());
                lamports.insert(pk);
                lamports.insert(ix.key("admin"));
                let vaults: Vec<Pubkey> =
                    ix.metas.iter().filter(|m| m.role == REM).map(|m| m.key).collect();
                let p = PoolAcc::parse(&a.data).filter(|_| is_pool(&a));
                let ok = match &p {
                    None => false,
                    Some(p) => {
                        let amp = ix.nums[0];
                        p.admin == ix.key("admin")
                            && p.signer == pool_signer(&pk)
                            && p.mint == ix.key("lp_mint")
                            && p.toll_wallet == ix.key("program_toll_wallet")
                            && p.fee == 0
                            && p.dimension as usize == vaults.len()
                            && p.stable.map(|s| s.0).unwrap_or(0) == amp
                            && p.stable.is_some() == (amp > 0)
                            && (0..4).all(|i| match vaults.get(i) {
                                Some(v) => {
                                    let v_ = pre.get(v);
                                    p.slots[i].vault == *v
                                        && p.slots[i].mint == tok_mint(&v_)
                                        && p.slots[i].tokens == tok_amount(&v_)
                                }
                                None => {
                                    p.slots[i].vault == Pubkey::default()
                                        && p.slots[i].mint == Pubkey::default()
                                        && p.slots[i].tokens == 0
                                }
                            })
                            && a.data[p.end..].iter().all(|b| *b == 0)
                    }
                };
                obs.eval("A08", argh, || {
                    format!("pool with {} vaults, amplifier {} recorded as given", vaults.len(), ix.nums[0])
                });
                if !ok {
                    obs.viol(&["A08"], format!("the pool does not record what it was created from: {:?}", p));
                }
                state_prop = "A08";
                if let Some(p) = p {
                    self.pools.insert(
                        pk,
                        GPool {
                            admin: p.admin,
                            mint: p.mint,
                            toll_wallet: p.toll_wallet,
                            fee: p.fee,
                            amp: p.stable.map(|s| s.0).unwrap_or(0),
                            res: p
                                .reserves()
                                .iter()
                                .map(|r| GRes { mint: r.mint, vault: r.vault, amount: r.tokens, donated: 0 })
                                .collect(),
                        },
                    );
                    self.judge_invariant("create_pool", &p, obs);
                }
            }
            _ => (),
        }

        // frame
        for c in &res.changed {
            let role = role_of(&c.key);
            if is_token(&c.pre) && is_token(&c.post) && c.pre.owner == c.post.owner {
                let d = tok_amount(&c.post) as i128 - tok_amount(&c.pre) as i128;
                let w = tokens.get(&c.key).copied().unwrap_or(0);
                let mut a = c.pre.data.to_vec();
                a[64..72].copy_from_slice(&c.post.data[64..72]);
                let delegated = tok_delegate(&c.pre).map(|k| ix.signed(&k)).unwrap_or(false)
                    && tok_delegate(&c.pre) != Some(tok_owner(&c.pre));
                if delegated {
                    a[72..129].copy_from_slice(&c.post.data[72..129]);
                }
                if a[..] != c.post.data[..] || !tok_lamports_ok(&c.pre, &c.post) {
                    obs.viol(&["X01"], format!("{} rewrote token account {}", ix.name, role));
                }
                if d != w && !broken {
                    let mut t: Vec<&'static str> = vec![];
                    let lpish = matches!(role, "lp_token_wallet" | "program_toll_wallet");
                    t.push(match (ix.name, lpish) {
                        ("swap", true) => "A05",
                        (_, true) => "A07",
                        _ => "A01",
                    });
                    if ix.name == "swap" && role == "sell_wallet" {
                        t.push("A06");
                    }
                    if w == 0 {
                        t.push("X01");
                    }
                    obs.viol(&t, format!("{}: {} changed by {} instead of {}", ix.name, role, d, w));
                    move_prop = "A01";
                }
                continue;
            }
            if is_mint(&c.pre) && is_mint(&c.post) {
                let mut a = c.pre.data.to_vec();
                a[36..44].copy_from_slice(&c.post.data[36..44]);
                if a[..] != c.post.data[..] || c.pre.lamports != c.post.lamports {
                    obs.viol(&["X01"], format!("{} rewrote mint {}", ix.name, role));
                }
                if !supply.contains_key(&c.key) && !broken {
                    obs.viol(&["X01", "A05", "A07"], format!("{} changed the supply of {}", ix.name, role));
                }
                continue;
            }
            match want.get(&c.key) {
                Some(d) => {
                    if d[..] != c.post.data[..] {
                        obs.viol(
                            &["X01", state_prop],
                            format!("{} changed fields of {} it has no business with", ix.name, role),
                        );
                    }
                }
                None => {
                    if !(lamports.contains(&c.key) && c.pre.data == c.post.data && c.pre.owner == c.post.owner) {
                        obs.viol(&["X01"], format!("{} changed {} ({})", ix.name, role, c.key));
                    }
                }
            }
            // whoever creates an account pays the rent it lacks and no more
            let due = match created(&c.post) {
                true => c.pre.lamports.max(rent(c.post.data.len())),
                false => c.pre.lamports.saturating_sub(owed(&lamports, &c.key, pre, &post)),
            };
            if lamports.contains(&c.key) && c.post.lamports != due {
                obs.viol(
                    &["X01"],
                    format!("{} left {} lamports instead of {} in {}", ix.name, c.post.lamports, due, role),
                );
            }
            if c.pre.lamports != c.post.lamports && !lamports.contains(&c.key) {
                obs.viol(&["X01"], format!("{} moved lamports of {}", ix.name, role));
            }
        }
        for (k, d) in &want {
            if post.get(k).data[..] != d[..] && !res.changed.iter().any(|c| c.key == *k) {
                obs.viol(&[state_prop], format!("{} did not store its effect in {}", ix.name, role_of(k)));
            }
        }
        if !broken {
            for (k, w) in &tokens {
                if dtok(k) != *w && !res.changed.iter().any(|c| c.key == *k) {
                    let t = match (ix.name, role_of(k)) {
                        ("swap", "program_toll_wallet") => "A05",
                        (_, "lp_token_wallet") => "A07",
                        _ => move_prop,
                    };
                    obs.viol(&[t], format!("{}: {} did not change but must by {}", ix.name, role_of(k), w));
                }
            }
        }
        obs.eval("X01", argh, || {
            format!("{} at slot {}: {} accounts changed", ix.name, pre.slot, res.changed.len())
        });

        if broken {
            self.resync();
            return;
        }
        // the model follows
        if trading {
            if let (Some(p1), Some(g)) = (parse(&post), self.pools.get_mut(&pk)) {
                for (i, r) in g.res.iter_mut().enumerate() {
                    r.amount = p1.slots[i].tokens;
                }
                self.judge_invariant(ix.name, &p1, obs);
            }
        }
        for (k, n) in sent {
            self.gift(&k, n);
        }
        self.invariants(ix.name, obs);
    }

    /// Tokens which arrive in a vault other than by its pool's accounting.
    pub fn gift(&mut self, to: &Pubkey, n: i128) {
        for g in self.pools.values_mut() {
            for r in g.res.iter_mut() {
                if r.vault == *to {
                    r.donated += n as u128;
                }
            }
        }
    }

    /// After a violation the model follows the accounts again.
    fn resync(&mut self) {
        let bank = self.bank.clone();
        self.pools.retain(|k, _| is_pool(&bank.get(k)));
        for (k, g) in self.pools.iter_mut() {
            let p = PoolAcc::parse(&bank.get(k).data).unwrap();
            g.admin = p.admin;
            g.mint = p.mint;
            g.toll_wallet = p.toll_wallet;
            g.fee = p.fee;
            g.amp = p.stable.map(|s| s.0).unwrap_or(0);
            g.res = p
                .reserves()
                .iter()
                .map(|r| GRes {
                    mint: r.mint,
                    vault: r.vault,
                    amount: r.tokens,
                    donated: (amount(&bank, &r.vault) as u128).saturating_sub(r.tokens as u128),
                })
                .collect();
        }
        self.toll = authority_of(&bank.get(&toll_pda()), "ProgramToll");
        self.settings = authority_of(&bank.get(&discount_settings_pda()), "DiscountSettings");
        let users: Vec<Pubkey> = self.discounts.keys().copied().collect();
        for u in users {
            match discount_of(&bank.get(&discount_pda(&u))) {
                Some(d) => self.discounts.insert(u, d),
                None => self.discounts.remove(&u),
            };
        }
    }

    fn invariants(&mut self, after: &'static str, obs: &mut Obs) {
        let mut dirty = false;
        for (k, g) in &self.pools {
            let p = match self.pool_acc(k) {
                Some(p) => p,
                None => {
                    obs.viol(&["X01"], format!("after {} a pool is gone", after));
                    dirty = true;
                    continue;
                }
            };
            for (i, r) in g.res.iter().enumerate() {
                let have = amount(&self.bank, &r.vault) as u128;
                let case = if have > 0 {
                    hash64(&[key64(&r.vault), have as u64, p.slots[i].tokens])
                } else {
                    0
                };
                obs.eval("A01", case, || {
                    format!("vault {} = reserve {} + sent directly {}", have, p.slots[i].tokens, r.donated)
                });
                if have != p.slots[i].tokens as u128 + r.donated || p.slots[i].tokens != r.amount {
                    obs.viol(
                        &["A01"],
                        format!(
                            "after {} the vault holds {} but the reserve is {} (expected {}) and {} were sent directly",
                            after, have, p.slots[i].tokens, r.amount, r.donated
                        ),
                    );
                    dirty = true;
                }
            }
            if p.fee != g.fee || p.fee > MAX_FEE {
                obs.viol(&["A04"], format!("after {} the fee is {} instead of {}", after, p.fee, g.fee));
                dirty = true;
            }
            if p.admin != g.admin || p.mint != g.mint || p.toll_wallet != g.toll_wallet {
                let t: &[&'static str] = if p.admin != g.admin { &["X01", "A09"] } else { &["X01"] };
                obs.viol(t, format!("after {} the pool has other accounts", after));
                dirty = true;
            }
        }
        for (u, d) in &self.discounts {
            if discount_of(&self.bank.get(&discount_pda(u))) != Some(*d) {
                obs.viol(&["A12"], format!("after {} a discount changed", after));
                dirty = true;
            }
        }
        if dirty {
            self.resync();
        }
    }

    /// A03: the stored invariant is the root of the curve.
    fn judge_invariant(&mut self, after: &str, p: &PoolAcc, obs: &mut Obs) {
        let (amp, inv) = match p.stable {
            Some(s) => s,
            None => return,
        };
        let xs: Vec<u64> = p.reserves().iter().map(|r| r.tokens).collect();
        let case = hash64(&[amp, inv[0], inv[1]]) ^ hash64(&xs);
        let d = Big::limbs(&inv);
        if xs.iter().any(|x| *x == 0) {
            obs.eval("A03", case, || "empty reserves: no invariant".into());
            if inv != [0, 0, 0] {
                obs.viol(&["A03"], format!("after {} a reserve is empty but the invariant is {:?}", after, inv));
            }
            return;
        }
        // in units of 2^-20
        let d20 = d.shl(20).div(Big::of(WAD));
        let rel = invariant_tolerance(&xs);
        if rel > 0.1 {
            obs.count("invariant beyond 18 decimals");
            return;
        }
        let t = Big::of((1.0 / rel) as u64);
        let one = Big::of(1u64);
        let lo = d20.minus(d20.div(t) + one);
        let hi = d20 + d20.div(t) + one + one;
        let signs = (stable_d_sign(amp, &xs, lo, 20), stable_d_sign(amp, &xs, hi, 20));
        if let (Some(a), Some(b)) = signs {
            if obs.measure {
                if let Some(e) = stable_d(amp, &xs) {
                    let err = (d20.f64() - e as f64).abs() / (e as f64 * rel + 2.0);
                    obs.maxf("worst invariant error", err, || format!("amp {} {:?} after {}", amp, xs, after));
                }
            }
            obs.eval("A03", case, || {
                format!("after {} of {:?} with amplifier {} the invariant is {:.3}", after, xs, amp, d20.f64() / 1048576.0)
            });
            if a == Ordering::Greater || b == Ordering::Less {
                let exact = stable_d(amp, &xs).map(|e| e as f64 / 1048576.0);
                obs.viol(
                    &["A03"],
                    format!(
                        "after {} the invariant is {:.6} but must be {:?} (reserves {:?}, amplifier {})",
                        after, d20.f64() / 1048576.0, exact, xs, amp
                    ),
                );
            }
        } else {
            obs.count("invariant beyond the oracle's range");
        }
    }

    fn judge_swap(
        &mut self,
        ix: &Ix,
        p0: &PoolAcc,
        p1: &PoolAcc,
        i: usize,
        j: usize,
        bought: u64,
        lp: i128,
        pre: &Bank,
        argh: u64,
        obs: &mut Obs,
    ) {
        let n = p0.reserves().len();
        let (sell, min) = (ix.nums[0], ix.nums[1]);
        let (x, y) = (p0.slots[i].tokens, p0.slots[j].tokens);
        let user = ix.key("user");
        let disc = self.discount(&user);
        let fee = self.pools.get(&ix.key("pool")).map(|g| g.fee).unwrap_or(p0.fee);
        let f = fee_of(sell, fee, disc);
        let net = sell - f;
        let supply = mint_supply(&pre.get(&p0.mint));
        obs.eval("A06", argh, || format!("swap of {} paid {} (minimum {})", sell, bought, min));
        if bought < min {
            obs.viol(&["A06"], format!("swap paid {} below the minimum {}", bought, min));
        }
        let curve: &'static str = if p0.stable.is_some() { "A03" } else { "A02" };
        if bought >= y {
            obs.viol(&[curve], format!("swap paid out the whole reserve of {}", y));
            return;
        }
        // toll
        let t = toll_of(f, n);
        let after = x as u128 + sell as u128;
        let fair = |t: u64| (supply as u128 * t as u128) / after;
        let toll_ok = |t: u64| {
            let fair = fair(t) as i128;
            // the share of the deposit is t / after with 18 decimals
            let slack = 1 + (supply as u128 / 100_000_000_000_000_000) as i128;
            if t == 0 { lp == 0 } else { lp <= fair && lp >= fair - slack }
        };
        // is another fee the explanation?
        let out = |f: u64| -> Option<(u64, u64)> {
            // bounds of the payout
            let net = sell.checked_sub(f)?;
            match p0.stable {
                None => {
                    if net >= x {
                        return None;
                    }
                    let o = const_out(x, y, net);
                    let up = (x as u128 + net as u128 > WAD as u128 || y > WAD) as u64;
                    Some((o.saturating_sub(1), o + up))
                }
                Some((amp, inv)) => {
                    let others: Vec<u64> = (0..n)
                        .filter(|k| *k != j)
                        .map(|k| if k == i { x.saturating_add(net) } else { p0.slots[k].tokens })
                        .collect();
                    let d20 = Big::limbs(&inv).shl(20).div(Big::of(WAD));
                    let root = stable_y(amp, &others, d20, 20)?;
                    let tol = (y / Y_TOLERANCE) as u128 + 1;
                    let lo = (y as u128).saturating_sub(root + 1 + tol) as u64;
                    let hi = (y as u128).saturating_sub(root.saturating_sub(tol)) as u64;
                    Some((lo, hi))
                }
            }
        };
        let range = out(f);
        let case = hash64(&[x, y, sell, f, disc, n as u64]).max(1);
        obs.eval(curve, case, || {
            format!("swap of {} (fee {}) from reserves {} and {} of {} paid {}, allowed {:?}", sell, f, x, y, n, bought, range)
        });
        if self.discounts.contains_key(&user) {
            obs.eval("A12", if disc > 0 && f > 0 { case } else { 0 }, || {
                format!("swap of {} with fee {} permillion by a user granted {:?} at slot {}: fee {}", sell, fee, self.discounts.get(&user), pre.slot, f)
            });
        }
        let fee_case = if f > 0 { case } else { 0 };
        obs.eval("A04", fee_case, || {
            format!("swap of {} with fee {} permillion, discount {}: fee {}", sell, fee, disc, f)
        });
        obs.eval("A05", if t > 0 { hash64(&[case, supply]) } else { 0 }, || {
            format!("fee {} of {} reserves: toll {} tokens of {} is {} of {} LP", f, n, t, after, lp, supply)
        });
        if let (Some((lo, hi)), Some((amp, _))) = (range, p0.stable) {
            if obs.measure {
                let mid = (lo as f64 + hi as f64) / 2.0;
                let err = ((bought as f64 - mid).abs() - 1.0) / y as f64;
                obs.maxf("worst swap error", err, || {
                    format!("amp {} {:?} sell {} of {} buy {}: paid {} mid {}", amp, p0.reserves().iter().map(|r| r.tokens).collect::<Vec<_>>(), net, i, j, bought, mid)
                });
            }
        }
        let fits = range.map(|(lo, hi)| bought >= lo && bought <= hi);
        if fits == Some(false) {
            let (lo, hi) = range.unwrap();
            let what = format!(
                "swap of {} (fee {}, share {}, discount {}) from reserve {} to {} of {} paid {} instead of {}..={} at slot {} (LP toll {}, reserves {:?}, curve {:?})",
                sell, f, fee, disc, x, y, n, bought, lo, hi, pre.slot, lp,
                p0.reserves().iter().map(|r| r.tokens).collect::<Vec<_>>(), p0.stable
            );
            // fees which explain the payout
            let full = self.discounts.get(&user).map(|d| d.0).unwrap_or(0);
            let m = MILLION as u128 * MILLION as u128;
            let floor = (sell as u128 * fee as u128 * (MILLION - disc.min(MILLION)) as u128 / m) as u64;
            let mut cands = vec![0, floor, fee_of(sell, fee, 0), fee_of(sell, fee, full), f + 1, f.saturating_sub(1)];
            for d in self.discounts.values() {
                cands.push(fee_of(sell, fee, d.0));
            }
            for q in [2u64, 3, 10, 100] {
                cands.push(f / q);
                cands.push(f.saturating_mul(q));
            }
            let alt = cands
                .into_iter()
                .any(|c| c != f && out(c).map(|(lo, hi)| bought >= lo && bought <= hi).unwrap_or(false));
            // a payout for any other fee leaves the toll to tell them apart
            let none = out(0).map(|(_, hi)| bought > hi).unwrap_or(false)
                || (net > 0 && bought == 0);
            if alt || (!none && !toll_ok(t)) {
                obs.viol(&["A04"], what.clone());
            }
            // a payout for another discount than the one granted
            let mut other = vec![0, full];
            other.extend(self.discounts.values().map(|d| d.0));
            let granted = full > 0
                && other.into_iter().any(|d| {
                    let c = fee_of(sell, fee, d);
                    c != f && out(c).map(|(lo, hi)| bought >= lo && bought <= hi).unwrap_or(false)
                });
            if granted {
                obs.viol(&["A12"], what.clone());
            }
            if !alt {
                obs.viol(&[curve], what);
            }
        }
        if fits.is_none() {
            obs.count("swap beyond the oracle's range");
        }
        if !toll_ok(t) {
            let what = format!(
                "toll of {} LP for fee {} of {}: {} tokens into {} with supply {} are worth {} (reserves {:?})",
                lp, f, sell, t, after, supply, fair(t), p1.reserves().iter().map(|r| r.tokens).collect::<Vec<_>>()
            );
            // with the payout telling that the fee was another one
            if fits == Some(false) {
                obs.viol(&["A04"], what.clone());
            }
            obs.viol(&["A05"], what);
        }
        if let Some((amp, _)) = p0.stable {
            let xs = |p: &PoolAcc| p.reserves().iter().map(|r| r.tokens).collect::<Vec<_>>();
            let (x0, x1) = (xs(p0), xs(p1));
            if in_stable_range(amp, &x0) && in_stable_range(amp, &x1) {
                if let Some(d0) = stable_d(amp, &x0) {
                    let low = d0 - d0.min(d0 / 1_000_000_000 + 2);
                    let sign = stable_d_sign(amp, &x1, Big::of(low), 20);
                    obs.eval("A13", case, || {
                        format!(
                            "swap of {} for {} keeps the invariant of {:?}, amplifier {}, at {:.3} or above",
                            sell, bought, x0, amp, d0 as f64 / 1048576.0
                        )
                    });
                    if sign == Some(Ordering::Greater) {
                        let d1 = stable_d(amp, &x1).unwrap_or(0);
                        obs.viol(
                            &["A13", "A03"],
                            format!(
                                "swap of {} (fee {}) for {} lowered the invariant from {:.6} to {:.6} (reserves {:?}, then {:?}, amplifier {})",
                                sell, f, bought, d0 as f64 / 1048576.0, d1 as f64 / 1048576.0, x0, x1, amp
                            ),
                        );
                    }
                }
            }
        }
        if p0.stable.is_none() && after <= WAD as u128 && y <= WAD {
            let prod = |p: &PoolAcc| p.reserves().iter().fold(Big::of(1u64), |k, r| k * Big::of(r.tokens));
            let (k0, k1) = (prod(p0), prod(p1));
            if k1.cmp(&k0) == Some(Ordering::Less) {
                obs.viol(&["A02"], format!("swap lowered the product of the reserves from {} and {}", x, y));
            }
            // per LP token
            let s0 = Big::of(supply).pow(n);
            let s1 = Big::of((supply as i128 + lp) as u128).pow(n);
            if (k1 * s0).cmp(&(k0 * s1)) == Some(Ordering::Less) {
                obs.viol(
                    &["A05"],
                    format!("swap with fee {} and toll {} LP lowered the value of an LP token (supply {})", f, lp, supply),
                );
            }
        }
    }

    fn judge_deposit(
        &mut self,
        ix: &Ix,
        p: &PoolAcc,
        rec: &[i128],
        lp: i128,
        pre: &Bank,
        argh: u64,
        obs: &mut Obs,
    ) {
        let n = rec.len();
        let supply = mint_supply(&pre.get(&p.mint));
        let mut s = Spec::default();
        let max: Vec<u64> = self.limits(ix, p, &mut s).into_iter().map(|l| l.unwrap_or(0)).collect();
        obs.eval("A06", argh, || format!("deposit of {:?}, limits {:?}", rec, max));
        let xs: Vec<u64> = p.reserves().iter().map(|r| r.tokens).collect();
        for i in 0..n {
            if rec[i] <= 0 || rec[i] > max[i] as i128 {
                obs.viol(&["A06"], format!("deposit took {} with limit {} (all: {:?} limits {:?} reserves {:?})", rec[i], max[i], rec, max, xs));
            }
        }
        if rec.iter().any(|r| *r <= 0) || lp <= 0 {
            obs.viol(&["A07"], format!("deposit of {:?} minted {} LP", rec, lp));
            return;
        }
        let case = hash64(&[argh, supply]);
        if supply == 0 {
            obs.eval("A07", case, || format!("first deposit of {:?} minted {} LP", rec, lp));
            let least = *rec.iter().min().unwrap();
            if lp != least || (0..n).any(|i| rec[i] != max[i] as i128) {
                obs.viol(&["A07"], format!("first deposit of {:?} (limits {:?}) minted {} LP", rec, max, lp));
            }
            return;
        }
        if xs.iter().any(|x| *x == 0) {
            obs.viol(&["A07"], format!("deposit into a pool with LP supply {} but reserves {:?}", supply, xs));
            return;
        }
        obs.eval("A07", case, || {
            format!("deposit of {:?} to reserves {:?} minted {} of {} LP", rec, xs, lp, supply)
        });
        let what = || {
            format!("deposit of {:?} (limits {:?}) into reserves {:?} minted {} LP of {}", rec, max, xs, lp, supply)
        };
        // the ratio of the reserves: r = min max_i / x_i
        let r = (0..n)
            .min_by(|a, b| (max[*a] as u128 * xs[*b] as u128).cmp(&(max[*b] as u128 * xs[*a] as u128)))
            .unwrap();
        let mut fair = u128::MAX;
        for i in 0..n {
            let (q, rem) = {
                let a = xs[i] as u128 * max[r] as u128;
                (a / xs[r] as u128, a % xs[r] as u128 != 0)
            };
            let ideal = (q + rem as u128) as i128;
            let tol = 1 + (ideal / 500_000_000);
            let err = ((rec[i] - ideal).abs() as f64 - 1.0) / ideal as f64;
            if obs.measure {
                obs.maxf("worst deposit error", err, what);
            }
            if (rec[i] - ideal).abs() > tol {
                obs.viol(&["A07"], format!("not in the ratio of the reserves, {} instead of {}: {}", rec[i], ideal, what()));
                return;
            }
            let f = floor_div(supply, rec[i] as u64, xs[i]);
            fair = fair.min(f);
        }
        if lp as u128 > fair {
            obs.viol(&["A07"], format!("worth only {}: {}", fair, what()));
        }
        let slack = 2 + fair / 500_000_000_000_000_000 + supply as u128 / 500_000_000_000_000_000;
        if obs.measure {
            obs.maxf("worst LP shortfall", (fair as f64 - lp as f64 - 1.0) / fair as f64, what);
        }
        if (lp as u128) + slack < fair {
            obs.viol(&["A07"], format!("worth {}: {}", fair, what()));
        }
    }

    fn judge_redeem(
        &mut self,
        ix: &Ix,
        p: &PoolAcc,
        rec: &[i128],
        lp: i128,
        pre: &Bank,
        argh: u64,
        obs: &mut Obs,
    ) {
        let supply = mint_supply(&pre.get(&p.mint));
        let b = ix.nums[0];
        let mut s = Spec::default();
        let min: Vec<u64> = self.limits(ix, p, &mut s).into_iter().map(|l| l.unwrap_or(0)).collect();
        let xs: Vec<u64> = p.reserves().iter().map(|r| r.tokens).collect();
        let what = || format!("redemption of {} of {} LP from reserves {:?} paid {:?} (minima {:?})", b, supply, xs, rec, min);
        obs.eval("A06", argh, what);
        if lp != -(b as i128) {
            obs.viol(&["A06"], format!("LP supply changed by {}: {}", lp, what()));
        }
        let case = hash64(&[argh, supply]);
        obs.eval("A07", if b > 0 { case } else { 0 }, what);
        for i in 0..rec.len() {
            let paid = -rec[i];
            if paid < min[i] as i128 {
                obs.viol(&["A06"], format!("below the minimum: {}", what()));
            }
            let fair = floor_div(xs[i], b, supply) as i128;
            let slack = if b == supply { 0 } else { 1 + (xs[i] / 500_000_000_000_000_000) as i128 };
            if paid < 0 || paid > fair {
                obs.viol(&["A07"], format!("pays more than the share {}: {}", fair, what()));
            }
            if paid < fair - slack {
                obs.viol(&["A07"], format!("pays less than the share {}: {}", fair, what()));
            }
        }
    }
}

fn created(a: &Acc) -> bool {
    a.owner == amm::ID
}

/// What the creation of the other accounts costs this payer.
fn owed(lamports: &BTreeSet<Pubkey>, payer: &Pubkey, pre: &Bank, post: &Bank) -> u64 {
    lamports
        .iter()
        .filter(|k| *k != payer && created(&post.get(k)))
        .map(|k| rent(post.get(k).data.len()).saturating_sub(pre.get(k).lamports))
        .sum()
}
