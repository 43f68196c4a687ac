//! Reference model and monitors of the farming program.
//!
//! Everything is judged from outside: the accounts before and after each
//! instruction, and the history of instructions that succeeded.

use crate::abi::*;
use crate::bank::*;
use crate::num::*;
use crate::obs::*;
use solana_program::pubkey::Pubkey;
use solana_program::system_program;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Default)]
pub struct GMint {
    pub vault: Pubkey,
    /// every period that was ever started or is scheduled, oldest first
    pub log: Vec<Period>,
    /// what the account must list, newest first
    pub kept: Vec<Period>,
    /// tokens in the vault which nobody was promised
    pub extra: u128,
}

#[derive(Clone, Debug)]
pub struct GFarm {
    pub admin: Pubkey,
    pub stake_mint: Pubkey,
    pub stake_vault: Pubkey,
    pub mints: BTreeMap<Pubkey, GMint>,
    /// all snapshots ever, (slot, staked), oldest first
    pub snaps: Vec<(u64, u64)>,
    pub window: u64,
    /// tokens sent to the stake vault outside of staking
    pub donated: u128,
}

impl GMint {
    /// All that is emitted by its periods, past and scheduled.
    pub fn emitted(&self) -> u128 {
        self.log
            .iter()
            .map(|p| (p.end as u128 - p.start as u128 + 1) * p.tps as u128)
            .sum()
    }
}

impl GFarm {
    pub fn oldest_retained(&self) -> u64 {
        if self.snaps.len() >= RING {
            self.snaps[self.snaps.len() - RING].0
        } else {
            0
        }
    }
    pub fn first_after(&self, slot: u64) -> Option<u64> {
        let i = self.snaps.partition_point(|s| s.0 <= slot);
        self.snaps.get(i).map(|s| s.0)
    }
    pub fn min_window(&self) -> u64 {
        if self.window == 0 {
            DEFAULT_WINDOW
        } else {
            self.window
        }
    }
    pub fn last_snap(&self) -> u64 {
        self.snaps.last().map(|s| s.0).unwrap_or(0)
    }
}

#[derive(Clone, Debug)]
pub struct GFarmer {
    pub farm: Pubkey,
    pub owner: Pubkey,
    /// earning
    pub base: u64,
    /// deposited, not yet earning
    pub waiting: u64,
    pub dep_slot: u64,
    /// first slot not settled yet
    pub next: u64,
    /// was idle until the snapshot history no longer covered everything
    pub lost: bool,
}

impl GFarmer {
    pub fn total(&self) -> u128 {
        self.base as u128 + self.waiting as u128
    }
}

#[derive(Clone)]
pub struct FarmWorld {
    pub bank: Bank,
    pub farms: BTreeMap<Pubkey, GFarm>,
    pub farmers: BTreeMap<Pubkey, GFarmer>,
    pub users: Vec<Pubkey>,
    pub mints: Vec<Pubkey>,
    pub wallets: BTreeMap<(Pubkey, Pubkey), Pubkey>,
    /// paid out by claims
    pub claimed: BTreeMap<(Pubkey, Pubkey), u128>,
    /// what left the farmers' records of a farm and mint, by claims and
    /// compounding, less what was put there by airdrops
    pub taken: BTreeMap<(Pubkey, Pubkey), i128>,
    /// of each farm: when the stake of its farmers last changed, how many
    /// settlements there were
    pub stir: BTreeMap<Pubkey, (u64, u64)>,
    /// the last look at what the farmers of a farm earned altogether
    pub earned: BTreeMap<(Pubkey, Pubkey), Earned>,
}

#[derive(Clone, Copy)]
pub struct Earned {
    /// all slots before this one are settled
    slot: u64,
    total: i128,
    settles: u64,
    farmers: usize,
}

/// The mint which is compounded.
fn stake_mint_of(ix: &Ix, farms: &BTreeMap<Pubkey, GFarm>, farm: &Pubkey) -> Option<Pubkey> {
    let farm = match ix.name {
        "compound_across_farms" => ix.key("target_farm"),
        _ => *farm,
    };
    farms.get(&farm).map(|t| t.stake_mint)
}

/// Can this account pay for new accounts?
fn rich(bank: &Bank, key: &Pubkey) -> bool {
    let p = bank.get(key);
    p.lamports > 1_000_000_000 && p.owner == system_program::ID && p.data.is_empty()
}

/// What an instruction is allowed to do, derived from the accounts it was
/// given, before it runs.
#[derive(Default)]
pub struct Spec {
    pub fails: Vec<(Vec<&'static str>, String)>,
    /// token account -> change
    pub tokens: BTreeMap<Pubkey, i128>,
    /// must succeed if nothing forbids it
    pub must: Vec<&'static str>,
    /// supply changes of mints
    pub supply: BTreeMap<Pubkey, i128>,
    /// payments to a wallet of the caller's choice
    pub sent: Vec<(Pubkey, u128)>,
    /// a redemption which leaves the reserves of a stable pool too imbalanced
    pub imbalanced: bool,
}

impl Spec {
    pub fn fail(&mut self, props: &[&'static str], what: impl Into<String>) {
        self.fails.push((props.to_vec(), what.into()));
    }
    pub fn need(
        &mut self,
        cond: bool,
        props: &[&'static str],
        what: impl FnOnce() -> String,
    ) -> bool {
        if !cond {
            self.fail(props, what());
        }
        cond
    }
    pub fn delta(&mut self, key: Pubkey, d: i128) {
        *self.tokens.entry(key).or_default() += d;
    }
    pub fn transfer(&mut self, from: Pubkey, to: Pubkey, n: u128) {
        self.delta(from, -(n as i128));
        self.delta(to, n as i128);
    }
    pub fn pay(&mut self, from: Pubkey, to: Pubkey, n: u128) {
        self.transfer(from, to, n);
        self.sent.push((to, n));
    }
}

pub fn token_program_ok(ix: &Ix, s: &mut Spec, prop: &'static str) {
    s.need(ix.key("token_program") == spl_token::ID, &[prop], || {
        "token program replaced".into()
    });
}

/// A transfer of `n` tokens must be refused unless it is covered, signed and
/// between accounts of one mint.
pub fn can_transfer(
    bank: &Bank,
    ix: &Ix,
    s: &mut Spec,
    from: Pubkey,
    to: Pubkey,
    authority: Pubkey,
    authority_signs: bool,
    n: u128,
    link: &'static str,
    auth: &'static str,
    money: &'static str,
) {
    let (f, t) = (bank.get(&from), bank.get(&to));
    if !s.need(is_token(&f), &[link], || {
        format!("{} pays but is no token account", from)
    }) {
        return;
    }
    if !s.need(is_token(&t), &[link], || {
        format!("{} receives but is no token account", to)
    }) {
        return;
    }
    s.need(tok_mint(&f) == tok_mint(&t), &[link], || {
        "transfer between different mints".into()
    });
    s.need(!tok_frozen(&f) && !tok_frozen(&t), &[link], || {
        "frozen token account".into()
    });
    let owner = tok_owner(&f) == authority;
    let delegate = tok_delegate(&f) == Some(authority)
        && (tok_delegated(&f) as u128 >= n);
    s.need(
        (owner || delegate) && authority_signs,
        &[auth],
        || format!("{} in {}: payer did not sign", from, ix.name),
    );
    s.need(tok_amount(&f) as u128 >= n, &[money], || {
        format!("insufficient tokens: {} < {}", tok_amount(&f), n)
    });
    s.need(
        from == to || tok_amount(&t) as u128 + n <= u64::MAX as u128,
        &[money],
        || "recipient overflows".into(),
    );
}

pub struct Harvested {
    pub lo: u128,
    pub hi: u128,
    pub windows: u64,
    pub err: u128,
    pub slots: u64,
}

/// Exact pro rata emission for slots from..=to.
/// `stake(slot) = base + (slot >= mature ? waiting : 0)`.
pub fn emission(
    snaps: &[(u64, u64)],
    log: &[Period],
    from: u64,
    to: u64,
    base: u64,
    waiting: u64,
    mature: Option<u64>,
) -> Harvested {
    let mut h = Harvested {
        lo: 0,
        hi: 0,
        windows: 0,
        err: 0,
        slots: 0,
    };
    if from > to || snaps.is_empty() {
        return h;
    }
    let mut sum = Sum::default();
    let mut e: u128 = 0;
    let first = snaps.partition_point(|s| s.0 <= from).saturating_sub(1);
    for i in first..snaps.len() {
        let (start, total) = snaps[i];
        if start > to {
            break;
        }
        let end = snaps.get(i + 1).map(|s| s.0 - 1).unwrap_or(u64::MAX);
        let (a, b) = (start.max(from), end.min(to));
        if a > b || total == 0 {
            continue;
        }
        let stake = match mature {
            Some(m) if a >= m => base as u128 + waiting as u128,
            _ => base as u128,
        };
        if stake == 0 {
            continue;
        }
        let stake = stake.min(u64::MAX as u128) as u64;
        let mut any = false;
        for p in log {
            let (x, y) = (p.start.max(a), p.end.min(b));
            if x > y || p.tps == 0 {
                continue;
            }
            let len = y - x + 1;
            h.slots += len;
            sum.add(mul3_div(len as u128, p.tps, stake, total));
            e = e.saturating_add(len as u128 * p.tps as u128);
            any = true;
        }
        h.windows += any as u64;
    }
    h.lo = sum.lo();
    h.hi = sum.hi();
    // the share is a fixed point number with 18 decimals, truncated
    h.err = e / 500_000_000_000_000_000 + (e > 0) as u128;
    h
}

impl Harvested {
    pub fn allows(&self, credit: i128) -> bool {
        credit <= self.hi.min(i128::MAX as u128) as i128
            && credit
                >= self.lo.min(i128::MAX as u128) as i128
                    - self.windows as i128
                    - self.err as i128
    }
}

/// Property an instruction's token movements belong to.
pub fn money_prop(ix: &str) -> &'static str {
    match ix {
        "start_farming" | "stop_farming" => "F01",
        "claim_eligible_harvest" => "F07",
        "compound_same_farm" | "compound_across_farms" => "F13",
        "airdrop" => "F15",
        "new_harvest_period" => "F10",
        "swap" | "deposit_liquidity" | "redeem_liquidity" => "A01",
        _ => "X01",
    }
}

impl FarmWorld {
    fn farm_acc(&self, key: &Pubkey) -> Option<FarmAcc> {
        let a = self.bank.get(key);
        is_farm(&a).then(|| FarmAcc::parse(&a.data))
    }
    pub fn farmer_acc(&self, key: &Pubkey) -> Option<FarmerAcc> {
        let a = self.bank.get(key);
        is_farmer(&a).then(|| FarmerAcc::parse(&a.data))
    }

    /// What must make this instruction fail, and how tokens move otherwise.
    pub fn spec(&self, ix: &Ix) -> Spec {
        let mut s = Spec::default();
        let bank = &self.bank;
        let now = bank.slot;
        let s_ = &mut s;
        let signed = |role: &str| ix.signed(&ix.key(role));
        macro_rules! need {
            ($c:expr, [$($p:expr),*], $($m:tt)*) => {
                s_.need($c, &[$($p),*], || format!($($m)*))
            };
        }
        let roles: BTreeSet<&str> = ix.metas.iter().map(|m| m.role).collect();
        if roles.contains("token_program") {
            need!(ix.key("token_program") == spl_token::ID, ["F12"], "token program replaced");
        }
        if roles.contains("system_program") {
            need!(ix.key("system_program") == system_program::ID, ["F12"], "system program replaced");
        }
        // farms
        let mut farms: BTreeMap<&str, FarmAcc> = BTreeMap::new();
        for role in ["farm", "source_farm", "target_farm"] {
            if roles.contains(role) && ix.name != "create_farm" {
                match self.farm_acc(&ix.key(role)) {
                    Some(f) => {
                        farms.insert(role, f);
                    }
                    None => {
                        s_.fail(&["F12", "X01"], format!("{} is no farm of the program", role));
                    }
                }
            }
        }
        let mut farmers: BTreeMap<&str, FarmerAcc> = BTreeMap::new();
        for role in ["farmer", "source_farmer", "target_farmer"] {
            if roles.contains(role) && ix.name != "create_farmer" {
                match self.farmer_acc(&ix.key(role)) {
                    Some(f) => {
                        farmers.insert(role, f);
                    }
                    None => {
                        s_.fail(&["F12", "X01"], format!("{} is no farmer of the program", role));
                    }
                }
            }
        }
        // admin instructions
        match ix.name {
            "add_harvest" | "remove_harvest" | "set_farm_owner" | "new_harvest_period"
            | "set_min_snapshot_window" => {
                if let Some(f) = farms.get("farm") {
                    need!(f.admin == ix.key("admin") && signed("admin"), ["F11"], "not signed by the farm's admin");
                }
                if ix.name == "set_farm_owner" {
                    need!(signed("new_farm_admin"), ["F11"], "new admin did not sign");
                }
            }
            "whitelist_farm_for_compounding" | "dewhitelist_farm_for_compounding" => {
                if let Some(f) = farms.get("source_farm") {
                    need!(f.admin == ix.key("admin") && signed("admin"), ["F11"], "not signed by the farm's admin");
                }
            }
            _ => (),
        }
        if !s_.fails.is_empty() && (farms.is_empty() && farmers.is_empty()) && ix.name != "create_farm" {
            return s;
        }
        let pda_ok = |s: &mut Spec, role: &str, want: Pubkey| {
            s.need(ix.key(role) == want, &["F12"], || {
                format!("{} of {} is not the farm's own", role, ix.name)
            })
        };
        match ix.name {
            "create_farm" => {
                let farm = ix.key("farm");
                let a = bank.get(&farm);
                need!(signed("admin"), ["F16"], "admin did not sign");
                need!(
                    a.owner == farming::ID && a.data.len() >= FARM_LEN,
                    ["F12", "F16"],
                    "farm account not owned by the program"
                );
                need!(
                    a.data.len() < 8 || a.data[..8] == [0; 8],
                    ["F16"],
                    "created over an existing account"
                );
                pda_ok(s_, "farm_signer_pda", farm_signer(&farm));
                pda_ok(s_, "stake_vault", stake_vault(&farm));
                need!(is_mint(&bank.get(&ix.key("stake_mint"))), ["F12"], "stake mint is no mint");
                let v = bank.get(&ix.key("stake_vault"));
                need!(v.owner == system_program::ID, ["F16"], "stake vault exists");
                if rich(bank, &ix.key("admin")) {
                    s_.must.push("F16");
                }
            }
            "add_harvest" => {
                let farm = ix.key("farm");
                if let Some(f) = farms.get("farm") {
                    let mint = ix.key("harvest_mint");
                    pda_ok(s_, "farm_signer_pda", farm_signer(&farm));
                    pda_ok(s_, "harvest_vault", harvest_vault(&farm, &mint));
                    need!(is_mint(&bank.get(&mint)), ["F12"], "harvest mint is no mint");
                    need!(f.harvest(&mint).is_none(), ["F14"], "duplicate harvest mint");
                    need!(f.harvests.len() < MAX_MINTS, ["F14"], "eleventh harvest mint");
                    let v = bank.get(&harvest_vault(&farm, &mint));
                    need!(v.owner == system_program::ID, ["F14"], "harvest vault exists");
                    if rich(bank, &ix.key("admin")) {
                        s_.must.extend(["F14", "F11"]);
                    }
                }
            }
            "remove_harvest" => {
                let farm = ix.key("farm");
                let mint = ix.keys[0];
                if let Some(f) = farms.get("farm") {
                    pda_ok(s_, "farm_signer_pda", farm_signer(&farm));
                    let v = harvest_vault(&farm, &mint);
                    if pda_ok(s_, "harvest_vault", v) {
                        need!(amount(bank, &v) == 0, ["F14"], "removed a mint with tokens in its vault");
                    }
                    need!(f.harvest(&mint).is_some(), ["F14"], "unknown mint removed");
                    // not if the admin is a strange account, say the farm
                    if rich(bank, &ix.key("admin")) {
                        s_.must.extend(["F14", "F11"]);
                    }
                }
            }
            "new_harvest_period" => {
                let farm = ix.key("farm");
                let mint = ix.keys[0];
                let (mut start, len, tps) = (ix.nums[0], ix.nums[1], ix.nums[2]);
                if let (Some(f), Some(g)) = (farms.get("farm"), self.farms.get(&farm)) {
                    pda_ok(s_, "farm_signer_pda", farm_signer(&farm));
                    let vault = harvest_vault(&farm, &mint);
                    pda_ok(s_, "harvest_vault", vault);
                    need!(f.harvest(&mint).is_some(), ["F12", "F14"], "period of an unknown mint");
                    need!(len > 0, ["F09"], "period without slots");
                    need!(start == 0 || start >= now, ["F09"], "period starts in the past");
                    if start == 0 {
                        start = now;
                    }
                    let end = start as u128 + len as u128 - (len > 0) as u128;
                    need!(end <= u64::MAX as u128, ["F09", "F10"], "period ends after the end of time");
                    if let Some(gm) = g.mints.get(&mint) {
                        let latest = gm.kept.iter().find(|p| p.start <= now);
                        if let Some(l) = latest {
                            need!(l.end < start, ["F09"], "period overlaps {:?}", l);
                        }
                        let replaced = gm.kept.first().filter(|p| p.start > now);
                        if replaced.is_none() && gm.kept.len() == PERIODS {
                            let old = gm.kept[PERIODS - 1];
                            need!(
                                g.snaps.len() >= RING && old.end < g.oldest_retained(),
                                ["F09"],
                                "discards {:?} while snapshots since {} (of {}) are kept",
                                old,
                                g.oldest_retained(),
                                g.snaps.len()
                            );
                        }
                        let cost = len as u128 * tps as u128;
                        need!(cost <= u64::MAX as u128, ["F10"], "cost overflows");
                        let old = replaced
                            .map(|p| (p.end - p.start + 1) as u128 * p.tps as u128)
                            .unwrap_or(0);
                        let wallet = ix.key("harvest_wallet");
                        if cost > old {
                            can_transfer(
                                bank, ix, s_, wallet, vault, ix.key("admin"), signed("admin"),
                                cost - old, "F12", "F11", "F10",
                            );
                            s_.transfer(wallet, vault, cost - old);
                        } else if cost < old {
                            can_transfer(
                                bank, ix, s_, vault, wallet, farm_signer(&farm), true,
                                old - cost, "F12", "F12", "F10",
                            );
                            s_.pay(vault, wallet, old - cost);
                        }
                        // a period of a single slot is refused as being of
                        // negative length, and one up to the very last slot
                        // of all as an overflow; no statement promises either
                        if len >= 2 && start as u128 + len as u128 <= u64::MAX as u128 {
                            s_.must.extend(["F09", "F10", "F11"]);
                        }
                    }
                }
            }
            "take_snapshot" => {
                let farm = ix.key("farm");
                if let Some(g) = self.farms.get(&farm) {
                    if pda_ok(s_, "stake_vault", stake_vault(&farm)) {
                        s_.must.push("F08");
                    } else {
                        s_.fails.last_mut().unwrap().0.push("F08");
                    }
                    let due = g.last_snap() as u128 + g.min_window() as u128;
                    s_.need(now as u128 >= due, &["F08"], || {
                        format!("snapshot at {} but none is due before {}", now, due)
                    });
                }
            }
            "set_min_snapshot_window" => s_.must.extend(["F08", "F11"]),
            "set_farm_owner" => s_.must.push("F11"),
            "create_farmer" => {
                let farm = ix.key("farm");
                let a = bank.get(&ix.key("farmer"));
                need!(signed("payer"), ["F16"], "payer did not sign");
                need!(
                    ix.key("farmer") == farmer_pda(&farm, &ix.key("authority")),
                    ["F12", "F16"],
                    "farmer is not at its address"
                );
                need!(
                    a.owner == system_program::ID && a.data.is_empty(),
                    ["F16"],
                    "farmer created over an existing account"
                );
                if rich(bank, &ix.key("payer")) {
                    s_.must.push("F16");
                }
            }
            "close_farmer" => {
                if let Some(f) = farmers.get("farmer") {
                    need!(
                        f.authority == ix.key("authority") && signed("authority"),
                        ["F11", "F16"],
                        "not signed by the farmer's owner"
                    );
                    need!(f.deposited() == 0, ["F16"], "closed with {} staked", f.deposited());
                    need!(
                        f.harvests.iter().all(|h| h.1 == 0),
                        ["F16"],
                        "closed with claimable harvest {:?}",
                        f.harvests
                    );
                    s_.must.push("F16");
                }
            }
            "start_farming" => {
                let farm = ix.key("farm");
                let n = ix.nums[0] as u128;
                if let Some(f) = farmers.get("farmer") {
                    need!(f.farm == farm, ["F12"], "farmer of another farm");
                }
                pda_ok(s_, "stake_vault", stake_vault(&farm));
                let (w, v) = (ix.key("stake_wallet"), ix.key("stake_vault"));
                can_transfer(
                    bank, ix, s_, w, v, ix.key("wallet_authority"), signed("wallet_authority"),
                    n, "F12", "F11", "F01",
                );
                s_.transfer(w, v, n);
                if n > 0 {
                    s_.must.push("F01");
                }
            }
            "stop_farming" => {
                let farm = ix.key("farm");
                pda_ok(s_, "stake_vault", stake_vault(&farm));
                pda_ok(s_, "farm_signer_pda", farm_signer(&farm));
                if let Some(f) = farmers.get("farmer") {
                    need!(f.farm == farm, ["F12"], "farmer of another farm");
                    need!(
                        f.authority == ix.key("authority") && signed("authority"),
                        ["F11"],
                        "not signed by the farmer's owner"
                    );
                    let n = f.deposited().min(ix.nums[0] as u128);
                    let (w, v) = (ix.key("stake_wallet"), ix.key("stake_vault"));
                    can_transfer(
                        bank, ix, s_, v, w, farm_signer(&farm), true, n, "F12", "F12", "F01",
                    );
                    s_.pay(v, w, n);
                    if ix.nums[0] > 0 && n > 0 {
                        s_.must.push("F02");
                    }
                }
            }
            "update_eligible_harvest" | "update_eligible_harvest_until" => {
                if let Some(f) = farmers.get("farmer") {
                    need!(f.farm == ix.key("farm"), ["F12"], "farmer of another farm");
                    if ix.name == "update_eligible_harvest" {
                        s_.must.extend(["F03", "F04"]);
                    }
                }
            }
            "claim_eligible_harvest" => {
                if let Some(f) = farmers.get("farmer") {
                    let farm = f.farm;
                    need!(
                        f.authority == ix.key("authority") && signed("authority"),
                        ["F11", "F07"],
                        "not signed by the farmer's owner"
                    );
                    pda_ok(s_, "farm_signer_pda", farm_signer(&farm));
                    let rem: Vec<Pubkey> = ix
                        .metas
                        .iter()
                        .filter(|m| m.role == REM)
                        .map(|m| m.key)
                        .collect();
                    let mut left = f.map();
                    let mut all_good = !rem.is_empty() && rem.len() % 2 == 0;
                    for p in rem.chunks(2) {
                        if p.len() < 2 {
                            // an unpaired account must not pay anything
                            continue;
                        }
                        let v = bank.get(&p[0]);
                        if !is_token(&v) {
                            s_.fail(&["F12", "F07"], "claim from something that is no vault");
                            continue;
                        }
                        let mint = tok_mint(&v);
                        if p[0] != harvest_vault(&farm, &mint) {
                            s_.fail(&["F12", "F07"], "claim from a vault that is not the farm's own");
                            continue;
                        }
                        let n = left.insert(mint, 0).unwrap_or(0);
                        if n > 0 {
                            can_transfer(
                                bank, ix, s_, p[0], p[1], farm_signer(&farm), true, n as u128,
                                "F12", "F12", "F07",
                            );
                            // the fact that the vault is short is a failure of
                            // solvency, not of the claim
                            if s_.fails.last().map(|x| x.1.starts_with("insufficient")) == Some(true) {
                                s_.fails.pop();
                            }
                            s_.pay(p[0], p[1], n as u128);
                        }
                        all_good &= ix.writable(&p[0]) && ix.writable(&p[1]);
                    }
                    if all_good {
                        s_.must.push("F06");
                        s_.must.push("F07");
                    }
                }
            }
            "whitelist_farm_for_compounding" | "dewhitelist_farm_for_compounding" => {
                let w = whitelist_pda(&ix.key("source_farm"), &ix.key("target_farm"));
                if ix.key("whitelist_compounding") != w {
                    s_.fail(&["F12", "F13"], "whitelist is not the one of the two farms");
                } else if ix.name.starts_with('d') {
                    need!(is_whitelist(&bank.get(&w)), ["F12", "F13"], "nothing to remove");
                    if rich(bank, &ix.key("admin")) {
                        s_.must.extend(["F11", "F13"]);
                    }
                } else if bank.get(&w).owner == system_program::ID && rich(bank, &ix.key("admin")) {
                    s_.must.extend(["F11", "F13"]);
                }
            }
            "compound_same_farm" => {
                let farm = ix.key("farm");
                pda_ok(s_, "farm_signer_pda", farm_signer(&farm));
                pda_ok(s_, "stake_vault", stake_vault(&farm));
                let w = ix.key("whitelist_compounding");
                need!(
                    w == whitelist_pda(&farm, &farm) && is_whitelist(&bank.get(&w)),
                    ["F13", "F12"],
                    "farm is not whitelisted for compounding"
                );
                if let (Some(f), Some(fr)) = (farms.get("farm"), farmers.get("farmer")) {
                    need!(fr.farm == farm, ["F12", "F13"], "farmer of another farm");
                    pda_ok(s_, "harvest_vault", harvest_vault(&farm, &f.stake_mint));
                    let known = fr.map().contains_key(&f.stake_mint) || fr.next < now;
                    if f.harvest(&f.stake_mint).is_some() && known {
                        s_.must.push("F13");
                    }
                }
            }
            "compound_across_farms" => {
                let (a, b) = (ix.key("source_farm"), ix.key("target_farm"));
                pda_ok(s_, "source_farm_signer_pda", farm_signer(&a));
                pda_ok(s_, "target_stake_vault", stake_vault(&b));
                let w = ix.key("whitelist_compounding");
                need!(
                    w == whitelist_pda(&a, &b) && is_whitelist(&bank.get(&w)),
                    ["F13", "F12"],
                    "target is not whitelisted for compounding"
                );
                if let Some(t) = farms.get("target_farm") {
                    pda_ok(s_, "source_harvest_vault", harvest_vault(&a, &t.stake_mint));
                }
                if let (Some(x), Some(y)) = (farmers.get("source_farmer"), farmers.get("target_farmer")) {
                    need!(x.farm == a, ["F12", "F13"], "source farmer of another farm");
                    need!(y.farm == b, ["F12", "F13"], "target farmer of another farm");
                    need!(x.authority == y.authority, ["F13", "F12"], "farmers of different owners");
                    if let (Some(s), Some(t)) = (farms.get("source_farm"), farms.get("target_farm")) {
                        // one account cannot be borrowed twice
                        let known = x.map().contains_key(&t.stake_mint) || x.next < now;
                        if s.harvest(&t.stake_mint).is_some() && a != b && known {
                            s_.must.push("F13");
                        }
                    }
                }
            }
            "airdrop" => {
                let n = ix.nums[0] as u128;
                need!(n > 0, ["F15"], "airdrop of nothing");
                if let Some(f) = farmers.get("farmer") {
                    let w = ix.key("harvest_wallet");
                    let wa = bank.get(&w);
                    if is_token(&wa) {
                        let mint = tok_mint(&wa);
                        pda_ok(s_, "harvest_vault", harvest_vault(&f.farm, &mint));
                        need!(
                            f.harvests.iter().any(|h| h.0 == mint),
                            ["F15"],
                            "farmer has no record of the mint"
                        );
                    }
                    let v = ix.key("harvest_vault");
                    can_transfer(
                        bank, ix, s_, w, v, ix.key("wallet_authority"), signed("wallet_authority"),
                        n, "F12", "F11", "F15",
                    );
                    s_.transfer(w, v, n);
                    s_.must.push("F15");
                }
            }
            _ => panic!("no spec of {}", ix.name),
        }
        s
    }

    /// Runs one instruction under all monitors. Returns whether it succeeded.
    pub fn step(&mut self, ix: &Ix, obs: &mut Obs) -> bool {
        obs.step += 1;
        let spec = self.spec(ix);
        let pre = self.bank.clone();
        let mut must = vec![];
        if spec.fails.is_empty() && ix.plain {
            must.extend(spec.must.iter());
            if matches!(
                ix.name,
                "start_farming" | "stop_farming" | "update_eligible_harvest" | "compound_same_farm"
            ) {
                must.extend(["F02", "F03", "F04"]);
            }
        }
        crate::watch::begin(obs.step, ix.name, &must);
        let res = self.bank.run(ix);
        crate::watch::end();
        obs.note(|| {
            format!(
                "slot {} {}{} {:?} {} -> {}",
                pre.slot,
                ix.name,
                if ix.limits.is_empty() { String::new() } else { format!(" {:?}", ix.limits) },
                ix.nums,
                ix.metas
                    .iter()
                    .map(|m| format!(
                        "{}={}{}{}",
                        m.role,
                        &m.key.to_string()[..5],
                        if m.signer { "!" } else { "" },
                        if m.writable { "" } else { "-" }
                    ))
                    .collect::<Vec<_>>()
                    .join(" "),
                if res.ok { "ok".to_string() } else { format!("FAILED {} {:?}", res.err, res.logs.last()) }
            )
        });
        obs.count(&format!("{} {}", ix.name, if res.ok { "ok" } else { "refused" }));
        if res.panicked {
            obs.count("panics");
        }
        self.judge(ix, &spec, &pre, &res, obs);
        res.ok
    }

    fn judge(&mut self, ix: &Ix, spec: &Spec, pre: &Bank, res: &TxResult, obs: &mut Obs) {
        let argh = obs_case(ix, pre.slot);
        // refusals
        let mut tags: BTreeSet<&'static str> = BTreeSet::new();
        for (props, _) in &spec.fails {
            tags.extend(props.iter());
        }
        for t in &tags {
            obs.eval(t, argh, || {
                format!("{} must be refused: {}", ix.name, spec.fails[0].1)
            });
        }
        if res.ok {
            for (props, what) in &spec.fails {
                obs.viol(props, format!("{} succeeded although it must fail: {}", ix.name, what));
            }
        } else {
            obs.eval("X01", argh, || format!("{} refused, changes nothing", ix.name));
            if spec.fails.is_empty() && ix.plain {
                for p in &spec.must {
                    obs.eval(p, argh, || format!("{} must succeed", ix.name));
                    obs.viol(
                        &[p],
                        format!("{} failed although nothing forbids it: {} {:?}", ix.name, res.err, res.logs),
                    );
                }
                if ix.name.starts_with("update_eligible") {
                    self.probe_unstake(&ix.key("farmer"), obs);
                }
            }
            return;
        }
        for p in &spec.must {
            obs.eval(p, argh, || format!("{} succeeded, as it must", ix.name));
        }
        // a period opened too early is opened all the same, and the one discarded
        // was in force all the same
        let broken = spec.fails.iter().any(|f| !f.1.starts_with("discards"));
        self.effects(ix, spec, pre, res, broken, obs);
        if broken {
            self.resync();
        }
    }

    /// After a violation the model follows the accounts again, so that later
    /// judgements are about later steps.
    fn resync(&mut self) {
        let keys: Vec<Pubkey> = self.farmers.keys().copied().collect();
        for k in keys {
            match self.farmer_acc(&k) {
                None => {
                    self.farmers.remove(&k);
                }
                Some(f) => {
                    let g = self.farmers.get_mut(&k).unwrap();
                    g.base = f.staked;
                    g.waiting = f.vested;
                    g.owner = f.authority;
                    g.farm = f.farm;
                }
            }
        }
        let keys: Vec<Pubkey> = self.farms.keys().copied().collect();
        for k in keys {
            let f = match self.farm_acc(&k) {
                Some(f) => f,
                None => {
                    self.farms.remove(&k);
                    continue;
                }
            };
            let total: u128 = self
                .farmers
                .values()
                .filter(|x| x.farm == k)
                .map(|x| x.total())
                .sum();
            let vault = amount(&self.bank, &stake_vault(&k)) as u128;
            let g = self.farms.get_mut(&k).unwrap();
            g.admin = f.admin;
            g.window = f.window;
            g.donated = vault.saturating_sub(total);
            g.mints.retain(|m, _| f.harvest(m).is_some());
            for h in &f.harvests {
                let kept: Vec<Period> = h
                    .periods
                    .iter()
                    .copied()
                    .filter(|p| p.start != 0 || p.end != 0)
                    .collect();
                let e = g.mints.entry(h.mint).or_insert_with(|| GMint {
                    vault: h.vault,
                    ..Default::default()
                });
                if e.kept != kept {
                    e.log = kept.iter().rev().copied().collect();
                    e.kept = kept;
                }
            }
        }
    }

    fn effects(
        &mut self,
        ix: &Ix,
        spec: &Spec,
        pre: &Bank,
        res: &TxResult,
        broken: bool,
        obs: &mut Obs,
    ) {
        let argh = obs_case(ix, pre.slot);
        let money = money_prop(ix.name);
        let mut tokens = spec.tokens.clone();
        let role_of = |k: &Pubkey| {
            ix.metas.iter().find(|m| m.key == *k).map(|m| m.role).unwrap_or("?")
        };
        let post = self.bank.clone();
        let dtok = |k: &Pubkey| amount(&post, k) as i128 - amount(pre, k) as i128;

        // compounding: the amount is what left the harvest vault; whether it
        // is the right one is judged with the settlement
        let compounded = match ix.name {
            "compound_same_farm" => {
                let d = -dtok(&ix.key("harvest_vault"));
                tokens.insert(ix.key("harvest_vault"), -d);
                tokens.insert(ix.key("stake_vault"), d);
                Some(d)
            }
            "compound_across_farms" => {
                let d = -dtok(&ix.key("source_harvest_vault"));
                tokens.insert(ix.key("source_harvest_vault"), -d);
                tokens.insert(ix.key("target_stake_vault"), d);
                Some(d)
            }
            _ => None,
        };
        if let Some(d) = compounded {
            if d < 0 {
                obs.viol(&["F13"], "compounding took tokens from the stake vault");
            }
        }

        // accounts that may change in a way other than tokens
        let mut special: BTreeSet<Pubkey> = BTreeSet::new();
        let mut allow = |role: &str| {
            special.insert(ix.key(role));
        };
        match ix.name {
            "create_farm" => {
                allow("farm");
                allow("stake_vault");
                allow("admin");
            }
            "add_harvest" | "remove_harvest" => {
                allow("farm");
                allow("harvest_vault");
                allow("admin");
            }
            "set_farm_owner" | "new_harvest_period" | "take_snapshot" | "set_min_snapshot_window" => {
                allow("farm")
            }
            "create_farmer" => {
                allow("payer");
                allow("farmer");
            }
            "close_farmer" => {
                allow("authority");
                allow("farmer");
            }
            "start_farming" | "stop_farming" | "update_eligible_harvest"
            | "update_eligible_harvest_until" | "claim_eligible_harvest" | "compound_same_farm"
            | "airdrop" => allow("farmer"),
            "compound_across_farms" => {
                allow("source_farmer");
                allow("target_farmer");
            }
            "whitelist_farm_for_compounding" | "dewhitelist_farm_for_compounding" => {
                allow("admin");
                allow("whitelist_compounding");
            }
            _ => (),
        }

        // frame
        for c in &res.changed {
            if is_token(&c.pre) && is_token(&c.post) {
                let d = tok_amount(&c.post) as i128 - tok_amount(&c.pre) as i128;
                let want = tokens.get(&c.key).copied().unwrap_or(0);
                let mut a = c.pre.data.to_vec();
                a[64..72].copy_from_slice(&c.post.data[64..72]);
                let delegated = tok_delegate(&c.pre).map(|k| ix.signed(&k)).unwrap_or(false)
                    && tok_delegate(&c.pre) != Some(tok_owner(&c.pre));
                if delegated {
                    a[72..129].copy_from_slice(&c.post.data[72..129]);
                }
                if a[..] != c.post.data[..] || c.pre.owner != c.post.owner {
                    obs.viol(&["X01"], format!("{} rewrote token account {}", ix.name, role_of(&c.key)));
                }
                if d != want && !broken {
                    let mut t = vec![money];
                    if want == 0 && money != "X01" {
                        t.push("X01");
                    }
                    if ix.name == "stop_farming" {
                        t.push("F02");
                    }
                    obs.viol(
                        &t,
                        format!("{}: {} changed by {} instead of {}", ix.name, role_of(&c.key), d, want),
                    );
                }
                if !tok_lamports_ok(&c.pre, &c.post) && !special.contains(&c.key) {
                    obs.viol(&["X01"], format!("{} moved lamports of {}", ix.name, role_of(&c.key)));
                }
                continue;
            }
            if !special.contains(&c.key) {
                obs.viol(
                    &["X01"],
                    format!("{} changed {} ({})", ix.name, role_of(&c.key), c.key),
                );
            }
        }
        if !broken {
            for (k, want) in &tokens {
                let d = dtok(k);
                if d != *want && !res.changed.iter().any(|c| c.key == *k) {
                    obs.viol(
                        if ix.name == "stop_farming" { &["F01", "F02"] } else { std::slice::from_ref(&money) },
                        format!("{}: {} did not change but must by {}", ix.name, role_of(k), want),
                    );
                }
            }
            if !tokens.is_empty() {
                let nz = tokens.values().any(|v| *v != 0);
                obs.eval(money, if nz { argh } else { 0 }, || {
                    format!(
                        "{} {:?} at slot {}: token movements {:?}",
                        ix.name,
                        ix.nums,
                        pre.slot,
                        tokens.iter().map(|(k, v)| (role_of(k), *v)).collect::<Vec<_>>()
                    )
                });
            }
        }
        obs.eval("X01", argh, || {
            format!("{} at slot {}: {} accounts changed", ix.name, pre.slot, res.changed.len())
        });

        // lamports
        let lam = |b: &Bank, k: &Pubkey| b.get(k).lamports as i128;
        for k in &special {
            let d = lam(&post, k) - lam(pre, k);
            if d == 0 {
                continue;
            }
            let role = role_of(k);
            let ok = match (ix.name, role) {
                ("create_farm", "admin" | "stake_vault")
                | ("add_harvest", "admin" | "harvest_vault")
                | ("remove_harvest", "admin" | "harvest_vault")
                | ("create_farmer", "payer" | "farmer")
                | ("close_farmer", "authority" | "farmer")
                | ("whitelist_farm_for_compounding", _)
                | ("dewhitelist_farm_for_compounding", _) => true,
                _ => false,
            };
            if !ok {
                obs.viol(&["X01"], format!("{} moved lamports of {}", ix.name, role));
            }
            // whoever creates an account pays the rent it lacks and no more
            let made = match ix.name {
                "create_farm" => Some(("stake_vault", "admin")),
                "add_harvest" => Some(("harvest_vault", "admin")),
                "create_farmer" => Some(("farmer", "payer")),
                "whitelist_farm_for_compounding" => Some(("whitelist_compounding", "admin")),
                _ => None,
            };
            if let Some((made, payer)) = made {
                let m = ix.key(made);
                let lacks = |a: &Acc| rent(a.data.len()).max(a.lamports) as i128;
                let new = post.get(&m);
                let cost = lacks(&Acc::new(pre.get(&m).lamports, new.data.to_vec(), new.owner))
                    - pre.get(&m).lamports as i128;
                let want = if *k == m {
                    cost
                } else if *k == ix.key(payer) {
                    -cost
                } else {
                    0
                };
                if d != want {
                    obs.viol(
                        &["X01"],
                        format!("{} changed the lamports of {} by {} instead of {}", ix.name, role, d, want),
                    );
                }
            }
        }

        if !broken {
            for (to, n) in &spec.sent {
                self.gift(to, *n);
            }
        }
        self.special_effects(ix, pre, &post, compounded, broken, obs);
        self.invariants(ix, obs);
    }

    fn special_effects(
        &mut self,
        ix: &Ix,
        pre: &Bank,
        post: &Bank,
        compounded: Option<i128>,
        broken: bool,
        obs: &mut Obs,
    ) {
        let now = pre.slot;
        let argh = obs_case(ix, now);
        let fpre = |k: &Pubkey| {
            let a = pre.get(k);
            is_farm(&a).then(|| FarmAcc::parse(&a.data))
        };
        let fpost = |k: &Pubkey| {
            let a = post.get(k);
            is_farm(&a).then(|| FarmAcc::parse(&a.data))
        };
        // which part of the farm an instruction may change
        if let Some(m) = ix.metas.iter().find(|m| m.role == "farm") {
            let (a, b) = (pre.get(&m.key), post.get(&m.key));
            if a.data != b.data && a.data.len() == b.data.len() && is_farm(&a) && b.data.len() >= FARM_LEN {
                let same = |r: std::ops::Range<usize>| a.data[r.clone()] == b.data[r];
                let name = ix.name;
                let mut bad = vec![];
                if !same(0..8) {
                    bad.push("kind");
                }
                if !same(8..40) && name != "set_farm_owner" {
                    bad.push("admin");
                }
                if !same(40..104) {
                    bad.push("stake mint or vault");
                }
                if !same(FARM_HARVESTS..FARM_RING)
                    && !matches!(name, "add_harvest" | "remove_harvest" | "new_harvest_period")
                {
                    bad.push("harvests");
                }
                if !same(FARM_RING..FARM_WINDOW) && name != "take_snapshot" {
                    bad.push("snapshots");
                }
                if !same(FARM_WINDOW..FARM_WINDOW + 8) && name != "set_min_snapshot_window" {
                    bad.push("snapshot window");
                }
                if !bad.is_empty() {
                    let mut t = vec!["X01"];
                    match name {
                        "take_snapshot" => t.push("F08"),
                        "add_harvest" | "remove_harvest" => t.push("F14"),
                        "new_harvest_period" => t.push("F09"),
                        _ => t.push("F11"),
                    }
                    obs.viol(&t, format!("{} changed the farm's {:?}", name, bad));
                }
            }
        }
        if broken {
            // an instruction that should have failed: no further expectation
            match ix.name {
                "create_farm" | "create_farmer" => (),
                _ => return,
            }
        }
        match ix.name {
            "create_farm" => {
                let farm = ix.key("farm");
                let acc = post.get(&farm);
                let v = post.get(&ix.key("stake_vault"));
                let mut want = vec![0u8; acc.data.len()];
                want[..8].copy_from_slice(&disc("Farm"));
                want[8..40].copy_from_slice(ix.key("admin").as_ref());
                want[40..72].copy_from_slice(ix.key("stake_mint").as_ref());
                want[72..104].copy_from_slice(stake_vault(&farm).as_ref());
                if acc.data[..] != want[..] {
                    obs.viol(&["F16"], "a new farm is not clean");
                }
                let gift = vault_gift(&ix.key("stake_mint"), &pre.get(&ix.key("stake_vault")));
                self.check_vault(&v, gift, &ix.key("stake_mint"), &farm, "F16", obs);
                obs.eval("F16", argh, || format!("new farm {} with vault {}", farm, ix.key("stake_vault")));
                self.farms.insert(
                    farm,
                    GFarm {
                        admin: ix.key("admin"),
                        stake_mint: ix.key("stake_mint"),
                        stake_vault: stake_vault(&farm),
                        mints: BTreeMap::new(),
                        snaps: vec![],
                        window: 0,
                        donated: gift as u128,
                    },
                );
            }
            "add_harvest" | "remove_harvest" => {
                let farm = ix.key("farm");
                let add = ix.name == "add_harvest";
                let mint = if add { ix.key("harvest_mint") } else { ix.keys[0] };
                let gift = vault_gift(&mint, &pre.get(&harvest_vault(&farm, &mint)));
                if let (Some(a), Some(b)) = (fpre(&farm), fpost(&farm)) {
                    let keep = |f: &FarmAcc| -> BTreeMap<Pubkey, HarvestAcc> {
                        f.harvests
                            .iter()
                            .filter(|h| h.mint != mint)
                            .map(|h| (h.mint, h.clone()))
                            .collect()
                    };
                    if keep(&a) != keep(&b) {
                        obs.viol(&["F14", "X01"], format!("{} touched other harvests", ix.name));
                    }
                    let here: Vec<&HarvestAcc> =
                        b.harvests.iter().filter(|h| h.mint == mint).collect();
                    let ok = if add {
                        here.len() == 1
                            && here[0].vault == harvest_vault(&farm, &mint)
                            && here[0].periods.iter().all(|p| *p == Period::default())
                    } else {
                        here.is_empty()
                    };
                    if !ok {
                        obs.viol(&["F14"], format!("{} recorded {:?}", ix.name, here));
                    }
                    let v = post.get(&harvest_vault(&farm, &mint));
                    if add {
                        self.check_vault(&v, gift, &mint, &farm, "F14", obs);
                    } else if v.lamports != 0 || is_token(&v) {
                        obs.viol(&["F14"], "the vault of a removed mint still exists");
                    } else {
                        let d = post.get(&ix.key("admin")).lamports as i128
                            - pre.get(&ix.key("admin")).lamports as i128;
                        if d != pre.get(&harvest_vault(&farm, &mint)).lamports as i128 {
                            obs.viol(&["X01"], "rent of the removed vault did not go to the admin");
                        }
                    }
                    obs.eval("F14", argh, || {
                        format!("{} leaves {} harvest mints", ix.name, b.harvests.len())
                    });
                }
                if let Some(g) = self.farms.get_mut(&farm) {
                    if add {
                        g.mints.insert(
                            mint,
                            GMint {
                                vault: harvest_vault(&farm, &mint),
                                extra: gift as u128,
                                ..Default::default()
                            },
                        );
                    } else {
                        g.mints.remove(&mint);
                        self.taken.remove(&(farm, mint));
                        self.earned.remove(&(farm, mint));
                    }
                }
            }
            "set_farm_owner" => {
                let farm = ix.key("farm");
                let new = ix.key("new_farm_admin");
                if fpost(&farm).map(|f| f.admin) != Some(new) {
                    obs.viol(&["F11"], "the admin is not the one that was set");
                }
                obs.eval("F11", argh, || "admin handed over".to_string());
                if let Some(g) = self.farms.get_mut(&farm) {
                    g.admin = new;
                }
            }
            "set_min_snapshot_window" => {
                let farm = ix.key("farm");
                if fpost(&farm).map(|f| f.window) != Some(ix.nums[0]) {
                    obs.viol(&["F08"], "the snapshot window is not the one that was set");
                }
                obs.eval("F08", argh, || format!("window set to {}", ix.nums[0]));
                if let Some(g) = self.farms.get_mut(&farm) {
                    g.window = ix.nums[0];
                }
            }
            "new_harvest_period" => self.judge_period(ix, pre, post, obs),
            "take_snapshot" => {
                let farm = ix.key("farm");
                let vault = amount(pre, &stake_vault(&farm));
                if let Some(g) = self.farms.get_mut(&farm) {
                    g.snaps.push((now, vault));
                    let k = g.snaps.len().min(RING);
                    let got = read_ring(&post.get(&farm).data, k);
                    let want = g.snaps.iter().rev().take(k);
                    let same = got.len() == k && got.iter().zip(want).all(|(a, b)| a == b);
                    if !same {
                        let want: Vec<_> = g.snaps.iter().rev().take(3).collect();
                        obs.viol(
                            &["F08"],
                            format!(
                                "after {} snapshots the history reads {:?}.. instead of {:?}..",
                                g.snaps.len(),
                                &got[..got.len().min(3)],
                                want
                            ),
                        );
                    }
                    let n = g.snaps.len();
                    obs.eval("F08", argh, || format!("snapshot number {} at slot {}: {} staked", n, now, vault));
                    if n == RING + 1 {
                        obs.count("rings rotated");
                    }
                }
            }
            "create_farmer" => {
                let farm = ix.key("farm");
                let key = ix.key("farmer");
                let a = post.get(&key);
                let ok = is_farmer(&a) && {
                    let f = FarmerAcc::parse(&a.data);
                    let farm_mints: BTreeSet<Pubkey> = fpost(&farm)
                        .map(|f| f.harvests.iter().map(|h| h.mint).collect())
                        .unwrap_or_default();
                    let mints: BTreeSet<Pubkey> = f.harvests.iter().map(|h| h.0).collect();
                    f.authority == ix.key("authority")
                        && f.farm == farm
                        && f.deposited() == 0
                        && f.harvests.iter().all(|h| h.1 == 0)
                        && f.harvests.len() == mints.len()
                        && mints == farm_mints
                        && a.lamports >= rent(a.data.len())
                };
                if !ok {
                    obs.viol(&["F16"], format!("a new farmer is not clean: {:?}", FarmerAcc::parse(&a.data)));
                }
                let d = pre.get(&ix.key("payer")).lamports as i128
                    - post.get(&ix.key("payer")).lamports as i128;
                let e = a.lamports as i128 - pre.get(&key).lamports as i128;
                if d != e {
                    obs.viol(&["F16", "X01"], "rent of a new farmer not paid by the payer");
                }
                obs.eval("F16", argh, || format!("farmer of {} in {}", ix.key("authority"), farm));
                if is_farmer(&a) {
                    self.farmers.insert(
                        key,
                        GFarmer {
                            farm,
                            owner: ix.key("authority"),
                            base: 0,
                            waiting: 0,
                            dep_slot: 0,
                            next: 0,
                            lost: false,
                        },
                    );
                }
            }
            "close_farmer" => {
                let key = ix.key("farmer");
                let a = post.get(&key);
                let d = post.get(&ix.key("authority")).lamports as i128
                    - pre.get(&ix.key("authority")).lamports as i128;
                let closed = a.lamports == 0 && (a.data.is_empty() || a.owner == system_program::ID);
                if key != ix.key("authority")
                    && (!closed || d != pre.get(&key).lamports as i128)
                {
                    obs.viol(&["F16"], "closing did not return the rent to the owner");
                }
                obs.eval("F16", argh, || "farmer closed".into());
                self.farmers.remove(&key);
            }
            "update_eligible_harvest" => {
                self.judge_settle(ix, "farm", "farmer", now, 0, 0, pre, post, None, obs);
            }
            "update_eligible_harvest_until" => {
                let until = ix.nums[0].saturating_add(1).min(now);
                self.judge_settle(ix, "farm", "farmer", until, 0, 0, pre, post, None, obs);
            }
            "start_farming" => {
                self.judge_settle(ix, "farm", "farmer", now, ix.nums[0], 0, pre, post, None, obs);
            }
            "stop_farming" => {
                self.judge_settle(ix, "farm", "farmer", now, 0, ix.nums[0], pre, post, None, obs);
            }
            "compound_same_farm" => {
                let n = compounded.unwrap_or(0).max(0) as u64;
                self.judge_settle(ix, "farm", "farmer", now, n, 0, pre, post, Some(n), obs);
            }
            "compound_across_farms" => {
                let n = compounded.unwrap_or(0).max(0) as u64;
                self.judge_settle(ix, "source_farm", "source_farmer", now, 0, 0, pre, post, Some(n), obs);
                self.judge_settle(ix, "target_farm", "target_farmer", now, n, 0, pre, post, None, obs);
            }
            "claim_eligible_harvest" => {
                let key = ix.key("farmer");
                let (a, b) = (pre.get(&key), post.get(&key));
                if is_farmer(&a) && is_farmer(&b) {
                    let (x, y) = (FarmerAcc::parse(&a.data), FarmerAcc::parse(&b.data));
                    let mut want = x.map();
                    let rem: Vec<Pubkey> = ix
                        .metas
                        .iter()
                        .filter(|m| m.role == REM)
                        .map(|m| m.key)
                        .collect();
                    let mut paid = 0u128;
                    for p in rem.chunks(2) {
                        let mint = tok_mint(&pre.get(&p[0]));
                        if let Some(v) = want.get_mut(&mint) {
                            paid += *v as u128;
                            *self.claimed.entry((key, mint)).or_default() += *v as u128;
                            *self.taken.entry((x.farm, mint)).or_default() += *v as i128;
                            *v = 0;
                        }
                    }
                    if y.map() != want || y.harvests.len() != y.map().len() {
                        obs.viol(
                            &["F07"],
                            format!("claim left the record {:?}, expected {:?}", y.harvests, want),
                        );
                    }
                    if (x.authority, x.farm) != (y.authority, y.farm) {
                        obs.viol(&["F07", "X01"], "claim changed the farmer's identity");
                    }
                    if (x.staked, x.vested, x.vested_at, x.next)
                        != (y.staked, y.vested, y.vested_at, y.next)
                    {
                        obs.viol(&["F07", "X01"], "claim touched the stake");
                    }
                    obs.eval("F07", if paid > 0 { argh } else { 0 }, || {
                        format!("claim of {} tokens over {} vaults", paid, rem.len() / 2)
                    });
                }
            }
            "airdrop" => {
                let key = ix.key("farmer");
                let (a, b) = (pre.get(&key), post.get(&key));
                if is_farmer(&a) && is_farmer(&b) {
                    let (x, y) = (FarmerAcc::parse(&a.data), FarmerAcc::parse(&b.data));
                    let mint = tok_mint(&pre.get(&ix.key("harvest_wallet")));
                    let mut want = x.map();
                    *want.entry(mint).or_default() =
                        x.tokens(&mint).saturating_add(ix.nums[0]);
                    if y.map() != want {
                        obs.viol(&["F15"], format!("airdrop left the record {:?}, expected {:?}", y.harvests, want));
                    }
                    let mut d = a.data.to_vec();
                    d[104..504].copy_from_slice(&b.data[104..504]);
                    if d[..] != b.data[..] {
                        obs.viol(&["F15", "X01"], "airdrop changed more than the claimable amount");
                    }
                    *self.taken.entry((x.farm, mint)).or_default() -=
                        y.tokens(&mint) as i128 - x.tokens(&mint) as i128;
                    obs.eval("F15", argh, || format!("airdrop of {}", ix.nums[0]));
                }
            }
            "whitelist_farm_for_compounding" => {
                let w = post.get(&ix.key("whitelist_compounding"));
                if !is_whitelist(&w) {
                    obs.viol(&["F13"], "whitelisting left no record");
                }
                obs.eval("F13", argh, || "whitelisted".into());
            }
            "dewhitelist_farm_for_compounding" => {
                let w = post.get(&ix.key("whitelist_compounding"));
                if is_whitelist(&w) || w.lamports != 0 {
                    obs.viol(&["F13"], "a removed whitelist record still exists");
                }
                obs.eval("F13", argh, || "removed from the whitelist".into());
            }
            _ => (),
        }
    }

    fn check_vault(
        &self,
        v: &Acc,
        gift: u64,
        mint: &Pubkey,
        farm: &Pubkey,
        prop: &'static str,
        obs: &mut Obs,
    ) {
        let ok = is_token(v)
            && tok_mint(v) == *mint
            && tok_owner(v) == farm_signer(farm)
            && tok_amount(v) == gift
            && tok_delegate(v).is_none()
            && tok_close_authority(v).is_none()
            && !tok_frozen(v);
        if !ok {
            obs.viol(&[prop], "a new vault is not an empty token account controlled by the farm alone");
        }
    }

    fn judge_period(&mut self, ix: &Ix, pre: &Bank, post: &Bank, obs: &mut Obs) {
        let now = pre.slot;
        let farm = ix.key("farm");
        let mint = ix.keys[0];
        let g = match self.farms.get_mut(&farm).and_then(|g| g.mints.get_mut(&mint)) {
            Some(g) => g,
            None => return,
        };
        let start = if ix.nums[0] == 0 { now } else { ix.nums[0] };
        let new = Period {
            tps: ix.nums[2],
            start,
            end: (start - 1).saturating_add(ix.nums[1]),
        };
        let replaced = g.kept.first().map(|p| p.start > now) == Some(true);
        if replaced {
            g.kept[0] = new;
            g.log.pop();
        } else {
            g.kept.insert(0, new);
            g.kept.truncate(PERIODS);
        }
        g.log.push(new);
        let (a, b) = (
            FarmAcc::parse(&pre.get(&farm).data),
            FarmAcc::parse(&post.get(&farm).data),
        );
        let others = |f: &FarmAcc| -> Vec<HarvestAcc> {
            f.harvests.iter().filter(|h| h.mint != mint).cloned().collect()
        };
        if others(&a) != others(&b) {
            obs.viol(&["F09", "X01"], "a period of one mint changed another mint");
        }
        let mut want = g.kept.clone();
        want.resize(PERIODS, Period::default());
        match b.harvest(&mint) {
            Some(h) if h.periods == want && h.vault == g.vault => (),
            h => obs.viol(
                &["F09"],
                format!("periods read {:?}, expected {:?}", h.map(|h| &h.periods[..2]), &want[..2]),
            ),
        }
        let n = g.log.len();
        obs.eval("F09", obs_case(ix, now), || {
            format!(
                "{} {:?} as number {} at slot {}",
                if replaced { "replaced by" } else { "opened" },
                new,
                n,
                now
            )
        });
        if n > PERIODS {
            obs.count("period histories rotated");
        }
    }

    /// Judges the settlement of one farmer. `done`: first slot that must stay
    /// unsettled. `add`/`remove_max`: stake put in or asked back in the same
    /// instruction. `compounded`: stake mint tokens taken out of the record.
    #[allow(clippy::too_many_arguments)]
    fn judge_settle(
        &mut self,
        ix: &Ix,
        farm_role: &str,
        farmer_role: &str,
        done: u64,
        add: u64,
        remove_max: u64,
        pre: &Bank,
        post: &Bank,
        compounded: Option<u64>,
        obs: &mut Obs,
    ) {
        let now = pre.slot;
        let farm_key = ix.key(farm_role);
        let key = ix.key(farmer_role);
        let (g, gf) = match (self.farms.get(&farm_key), self.farmers.get(&key)) {
            (Some(a), Some(b)) => (a, b.clone()),
            _ => return,
        };
        let (a, b) = (pre.get(&key), post.get(&key));
        if !is_farmer(&a) || !is_farmer(&b) {
            obs.viol(&["X01", "F01"], "farmer account vanished");
            return;
        }
        let (x, y) = (FarmerAcc::parse(&a.data), FarmerAcc::parse(&b.data));
        let c = y.next;
        let mature = if gf.waiting > 0 { self.farms[&farm_key].first_after(gf.dep_slot) } else { None };
        let snaps = &self.farms[&farm_key].snaps;
        let oldest = self.farms[&farm_key].oldest_retained();
        let from = gf.next.max(oldest);
        let earning = gf.base > 0 || mature.is_some();

        if x.authority != y.authority || x.farm != y.farm {
            obs.viol(&["X01"], format!("{} changed the farmer's identity", ix.name));
        }

        // which slots were settled
        if earning {
            if c > now {
                obs.viol(
                    &["F04", "F06", "F03"],
                    format!(
                        "{} at slot {} settled up to slot {}, whose snapshot is not final",
                        ix.name,
                        now,
                        c - 1
                    ),
                );
            }
            if c < done && c < now {
                obs.viol(
                    &["F04", "F03"],
                    format!("{} at slot {} left slots {}..{} unsettled", ix.name, now, c, done - 1),
                );
            }
        }

        let stir = self.stir.entry(farm_key).or_default();
        stir.1 += 1;
        if add > 0 || remove_max > 0 {
            stir.0 = now;
        }
        if let (Some(n), Some(t)) = (compounded, stake_mint_of(ix, &self.farms, &farm_key)) {
            *self.taken.entry((farm_key, t)).or_default() += n as i128;
        }

        // harvest credited
        let (g, snaps) = match self.farms.get(&farm_key) {
            Some(g) => (g, &g.snaps),
            None => return,
        };
        let to = c.saturating_sub(1);
        let mut bad_mints = 0;
        let stake_mint = stake_mint_of(ix, &self.farms, &farm_key);
        let post_map = y.map();
        if y.harvests.len() != post_map.len() {
            obs.viol(&["F14"], format!("farmer lists a mint twice: {:?}", y.harvests));
        }
        for (mint, gm) in &g.mints {
            let before = x.tokens(mint);
            let mut after = y.tokens(mint) as i128;
            if compounded.is_some() && Some(*mint) == stake_mint {
                if after != 0 {
                    obs.viol(&["F13"], format!("compounding left {} claimable", after));
                }
                after += compounded.unwrap() as i128;
            }
            let credit = after - before as i128;
            let want = emission(snaps, &gm.log, from, to, gf.base, gf.waiting, mature);
            let case = if want.hi > 0 {
                hash64(&[from, to, gf.base, gf.waiting, mature.unwrap_or(0), key64(mint), want.lo as u64])
            } else {
                0
            };
            let sample = || {
                format!(
                    "{} at slot {}: stake {}+{} over slots {}..={} ({} windows): credited {}, exact sum in [{}, {}]",
                    ix.name, now, gf.base, gf.waiting, from, to, want.windows, credit, want.lo, want.hi
                )
            };
            obs.eval("F03", case, sample);
            obs.eval("F04", case, sample);
            if gf.waiting > 0 || add > 0 {
                obs.eval("F05", case, sample);
            }
            if compounded.is_some() {
                obs.eval("F13", case, sample);
            }
            if !want.allows(credit) {
                bad_mints += 1;
                let what = sample();
                let mut tags = vec!["F03"];
                // which deviation explains the amount?
                let mut shift = false;
                for da in -2i64..=2 {
                    for db in -2i64..=2 {
                        if da == 0 && db == 0 {
                            continue;
                        }
                        let f2 = (from as i64 + da).max(0) as u64;
                        let t2 = (to as i64 + db).max(0) as u64;
                        shift |= emission(snaps, &gm.log, f2, t2, gf.base, gf.waiting, mature)
                            .allows(credit);
                    }
                }
                for f2 in [x.next, gf.dep_slot, mature.unwrap_or(from), 0] {
                    shift |= emission(snaps, &gm.log, f2, to, gf.base, gf.waiting, mature)
                        .allows(credit);
                }
                for t2 in [now, done, mature.unwrap_or(to)] {
                    shift |= emission(snaps, &gm.log, from, t2, gf.base, gf.waiting, mature)
                        .allows(credit);
                }
                // slots skipped altogether, or credited from another time
                shift |= credit == 0;
                if shift || credit > want.hi.min(i128::MAX as u128) as i128 {
                    tags.push("F04");
                }
                if credit > want.hi.min(i128::MAX as u128) as i128 {
                    // more than this share of what was funded
                    tags.push("F06");
                }
                if gf.waiting > 0 {
                    let alts = [
                        None,
                        Some(0),
                        Some(gf.dep_slot),
                        snaps.iter().rev().map(|s| s.0).find(|s| *s <= gf.dep_slot),
                        mature.and_then(|m| self.farms[&farm_key].first_after(m)),
                        Some(gf.dep_slot + 1),
                        snaps.last().map(|s| s.0),
                        Some(now),
                    ];
                    let w = gf.waiting;
                    if alts.iter().any(|m| {
                        emission(snaps, &gm.log, from, to, gf.base, w, *m).allows(credit)
                            || emission(snaps, &gm.log, from, to, 0, w, *m).allows(credit)
                    }) {
                        tags.push("F05");
                    }
                }
                if compounded.is_some() || ix.name == "compound_across_farms" {
                    tags.push("F13");
                }
                obs.viol(&tags, format!("wrong harvest: {}", what));
            }
        }
        // mints the farm does not list any more, or never did
        for (mint, tokens) in &post_map {
            if *mint == Pubkey::default() {
                if *tokens != 0 {
                    obs.viol(&["F14"], format!("{} tokens of no mint claimable", tokens));
                }
                continue;
            }
            if !g.mints.contains_key(mint) && *tokens > x.tokens(mint) {
                obs.viol(&["F14", "F03"], "credited a mint the farm does not list");
            }
        }
        for mint in g.mints.keys() {
            if !post_map.contains_key(mint) && c > gf.next {
                obs.viol(&["F14"], "settled farmer does not list a mint of the farm");
            }
        }
        if c > gf.next {
            obs.eval("F14", hash64(&[key64(&key), now, g.mints.len() as u64, x.harvests.len() as u64]), || {
                format!("farmer follows {} mints after {}", g.mints.len(), ix.name)
            });
        }
        let _ = bad_mints;

        // stake
        let mut n = gf.clone();
        if earning && from > gf.next {
            n.lost = true;
            obs.count("settlements older than the snapshot history");
        }
        if c > n.next {
            n.next = c;
        }
        if let Some(m) = mature {
            if c >= m || ix.name == "stop_farming" || add > 0 {
                n.base += n.waiting;
                n.waiting = 0;
            }
        }
        if (add > 0 || remove_max > 0) && earning && c < now {
            // the stake changed while completed slots were left unsettled
            obs.viol(&["F04"], "stake changed without settling");
        }
        if remove_max > 0 {
            let take = (n.total()).min(remove_max as u128) as u64;
            let w = n.waiting.min(take);
            n.waiting -= w;
            n.base -= take - w;
        }
        if add > 0 {
            n.waiting = n.waiting.saturating_add(add);
            n.dep_slot = now;
        }
        if y.deposited() != n.total() {
            let mut t = vec!["F01"];
            if ix.name.starts_with("compound") {
                t.push("F13");
            }
            if y.deposited() < n.total() {
                t.push("F02");
            }
            obs.viol(
                &t,
                format!("{}: recorded stake {}, expected {}", ix.name, y.deposited(), n.total()),
            );
        } else if (y.staked, y.vested) != (n.base, n.waiting) {
            let mut t = vec!["F05"];
            if remove_max > 0 {
                t.push("F01");
            }
            if ix.name.starts_with("compound") {
                t.push("F13");
            }
            obs.viol(
                &t,
                format!(
                    "{} at slot {}: earning {} and waiting {}, expected {} and {} (deposit at {}, matures {:?})",
                    ix.name, now, y.staked, y.vested, n.base, n.waiting, gf.dep_slot, mature
                ),
            );
        }
        if add > 0 && y.vested_at != now {
            obs.viol(&["F05"], format!("deposit at slot {} recorded as of {}", now, y.vested_at));
        }
        if add == 0 && y.vested_at != x.vested_at && y.vested > 0 {
            let t: &[&'static str] =
                if ix.name.starts_with("compound") { &["F13", "F05"] } else { &["F05"] };
            obs.viol(t, format!("{} postponed waiting stake", ix.name));
        }
        if gf.waiting > 0 && mature.is_some() {
            obs.eval("F05", hash64(&[gf.dep_slot, mature.unwrap(), now, gf.waiting]), || {
                format!("stake deposited at {} earns from {:?}; {} at {}", gf.dep_slot, mature, ix.name, now)
            });
            if oldest > gf.dep_slot {
                obs.count("stake matured after the ring was overwritten");
            }
        }
        // follow the account
        n.base = y.staked;
        n.waiting = y.vested;
        if n.waiting > 0 {
            n.dep_slot = if add > 0 { now } else { gf.dep_slot };
        }
        self.farmers.insert(key, n);
    }

    /// State invariants, after every instruction that succeeded.
    fn invariants(&mut self, ix: &Ix, obs: &mut Obs) {
        let now = self.bank.slot;
        let farms: BTreeSet<Pubkey> = ["farm", "source_farm", "target_farm"]
            .iter()
            .filter_map(|r| ix.metas.iter().find(|m| m.role == *r).map(|m| m.key))
            .chain(
                ["farmer", "source_farmer", "target_farmer"]
                    .iter()
                    .filter_map(|r| ix.metas.iter().find(|m| m.role == *r))
                    .filter_map(|m| self.farmers.get(&m.key).map(|f| f.farm)),
            )
            .collect();
        for k in farms {
            self.custody(&k, ix.name, obs);
            if let (Some(f), Some(g)) = (self.farm_acc(&k), self.farms.get(&k)) {
                for h in &f.harvests {
                    let started: Vec<&Period> = h
                        .periods
                        .iter()
                        .filter(|p| p.start != 0 || p.end != 0)
                        .collect();
                    let bad = started.windows(2).any(|w| w[1].end >= w[0].start)
                        || started.iter().skip(1).any(|p| p.start > now)
                        || started.iter().any(|p| p.end < p.start);
                    if bad {
                        obs.viol(&["F09"], format!("disordered periods {:?}", started));
                    }
                }
                let d: BTreeSet<Pubkey> = f.harvests.iter().map(|h| h.mint).collect();
                if d.len() != f.harvests.len() || d.len() > MAX_MINTS {
                    obs.viol(&["F14"], "farm lists a mint twice");
                }
                if f.admin != g.admin {
                    obs.viol(&["F11"], "the admin changed");
                }
            }
        }
    }

    /// Tokens that reach a vault outside of staking and funding.
    pub fn gift(&mut self, to: &Pubkey, n: u128) {
        for g in self.farms.values_mut() {
            if g.stake_vault == *to {
                g.donated += n;
            }
            for m in g.mints.values_mut() {
                if m.vault == *to {
                    m.extra += n;
                }
            }
        }
    }

    /// F02: on a copy of the world the owner takes everything out.
    pub fn probe_unstake(&self, farmer: &Pubkey, obs: &mut Obs) {
        let f = match self.farmer_acc(farmer) {
            Some(f) if f.deposited() > 0 => f,
            _ => return,
        };
        let mint = match self.farms.get(&f.farm) {
            Some(g) => g.stake_mint,
            None => return,
        };
        let mut bank = self.bank.clone();
        // a wallet nobody else knows about
        let wallet = pda(&farming::ID, &[b"probe", farmer.as_ref()]);
        put_token(&mut bank, wallet, &mint, &f.authority, 0);
        let all = f.deposited();
        let max = if bank.slot % 2 == 0 { u64::MAX } else { all as u64 };
        let ix = stop_farming(f.authority, wallet, f.farm, max);
        crate::watch::begin(obs.step, ix.name, &["F02", "F03", "F04"]);
        let res = bank.run(&ix);
        crate::watch::end();
        let got = amount(&bank, &wallet) as u128;
        let case = hash64(&[key64(farmer), bank.slot, f.staked, f.vested, f.next]);
        obs.eval("F02", case, || {
            format!("at slot {} {} tokens can be unstaked (staked {} vested {} since {} calculated to {})",
                bank.slot, all, f.staked, f.vested, f.vested_at, f.next)
        });
        if !res.ok || got != all {
            obs.viol(
                &["F02"],
                format!(
                    "owner cannot unstake at slot {}: got {} of {}: {} {:?} (staked {} vested {} since {} calculated to {})",
                    bank.slot, got, all, res.err, res.logs, f.staked, f.vested, f.vested_at, f.next
                ),
            );
        }
    }

    /// F17: on a copy of the world everybody settles. Since the last look they
    /// earned no more than what's been emitted, and no less if all stake in
    /// the vault was earning all the time.
    pub fn probe_earned(&mut self, obs: &mut Obs) {
        let now = self.bank.slot;
        for (fk, g) in &self.farms {
            if g.mints.is_empty() {
                continue;
            }
            let mut bank = self.bank.clone();
            let mut totals: BTreeMap<Pubkey, i128> = BTreeMap::new();
            let (mut farmers, mut all, mut lost) = (0, 0u128, false);
            for (k, f) in self.farmers.iter().filter(|(_, f)| f.farm == *fk) {
                crate::watch::begin(obs.step, "update_eligible_harvest", &["F02", "F03", "F04", "F17"]);
                let res = bank.run(&update_eligible_harvest(*fk, *k, None));
                crate::watch::end();
                lost |= !res.ok || f.lost || f.next < g.oldest_retained();
                let f = FarmerAcc::parse(&bank.get(k).data);
                for (m, t) in f.map() {
                    *totals.entry(m).or_default() += t as i128;
                }
                all += f.deposited();
                farmers += 1;
            }
            let (stirred, settles) = self.stir.get(fk).copied().unwrap_or_default();
            for (m, gm) in &g.mints {
                let total = totals.get(m).copied().unwrap_or(0)
                    + self.taken.get(&(*fk, *m)).copied().unwrap_or(0);
                let e = Earned { slot: now, total, settles, farmers };
                let old = match self.earned.insert((*fk, *m), e) {
                    Some(o) if o.slot < now => o,
                    _ => continue,
                };
                // slots old.slot..now, in windows with anybody's stake
                let first = g.snaps.partition_point(|s| s.0 <= old.slot).saturating_sub(1);
                let mut emitted = 0u128;
                let mut windows = 0u128;
                let mut steady = !lost && farmers >= old.farmers && all > 0;
                for i in first..g.snaps.len() {
                    let (start, staked) = g.snaps[i];
                    let end = g.snaps.get(i + 1).map(|s| s.0 - 1).unwrap_or(u64::MAX);
                    let (a, b) = (start.max(old.slot), end.min(now - 1));
                    if a > b {
                        continue;
                    }
                    windows += 1;
                    if staked == 0 {
                        continue;
                    }
                    steady &= stirred < start && staked as u128 == all;
                    for p in &gm.log {
                        let (x, y) = (p.start.max(a), p.end.min(b));
                        if x <= y {
                            emitted += (y - x + 1) as u128 * p.tps as u128;
                        }
                    }
                }
                let got = total - old.total;
                let err = emitted / 100_000_000_000_000_000 + 1;
                let n = farmers.max(old.farmers) as u128;
                let most = (emitted + n + n * err).min(i128::MAX as u128) as i128;
                let floors = n * (windows + 1) + (settles - old.settles) as u128 + n * err;
                let least = if steady { emitted as i128 - floors.min(i128::MAX as u128) as i128 } else { 0 };
                let case = if emitted > 0 && got > 0 {
                    hash64(&[key64(fk), key64(m), old.slot, now, got as u64, steady as u64])
                } else {
                    0
                };
                if steady && emitted > floors {
                    obs.count("stretches in which all stake earned");
                }
                obs.eval("F17", case, || {
                    format!(
                        "slots {}..{}: {} farmers earned {} of {} emitted{}",
                        old.slot, now, farmers, got, emitted, if steady { ", all stake earning" } else { "" }
                    )
                });
                if got > most || (steady && got < least) {
                    obs.viol(
                        &["F17"],
                        format!(
                            "in slots {}..{} {} farmers earned {} altogether although {} was emitted{}",
                            old.slot, now, farmers, got, emitted, if steady { " and all stake was earning" } else { "" }
                        ),
                    );
                }
            }
        }
    }

    /// F06: on a copy of the world everybody settles and claims, and the rest
    /// of every period stays funded.
    pub fn probe_solvency(&self, obs: &mut Obs) {
        for (fk, g) in &self.farms {
            if g.mints.is_empty() {
                continue;
            }
            let mut bank = self.bank.clone();
            let mut claims: BTreeMap<Pubkey, u128> = BTreeMap::new();
            let mut owners = vec![];
            for (k, _) in self.farmers.iter().filter(|(_, f)| f.farm == *fk) {
                crate::watch::begin(obs.step, "update_eligible_harvest", &["F02", "F03", "F04", "F06"]);
                bank.run(&update_eligible_harvest(*fk, *k, None));
                crate::watch::end();
                let f = FarmerAcc::parse(&bank.get(k).data);
                for (m, t) in &f.harvests {
                    *claims.entry(*m).or_default() += *t as u128;
                }
                owners.push(f);
            }
            let now = bank.slot;
            for (m, gm) in &g.mints {
                let vault = amount(&bank, &gm.vault) as u128;
                let promised = claims.get(m).copied().unwrap_or(0);
                let future: u128 = gm
                    .kept
                    .iter()
                    .filter(|p| p.end >= now)
                    .map(|p| (p.end - p.start.max(now) + 1) as u128 * p.tps as u128)
                    .sum();
                let case = if promised > 0 {
                    hash64(&[key64(fk), key64(m), vault as u64, promised as u64, now])
                } else {
                    0
                };
                obs.eval("F06", case, || {
                    format!("slot {}: vault {} covers claims {} and future emission {} ({} sent directly)",
                        now, vault, promised, future, gm.extra)
                });
                if promised + future + gm.extra > vault {
                    obs.viol(
                        &["F06"],
                        format!(
                            "at slot {} the vault holds {} ({} sent directly) but claims are {} and {} are still to be emitted",
                            now, vault, gm.extra, promised, future
                        ),
                    );
                }
            }
            // and the claims are really paid
            for f in owners {
                let mut pairs = vec![];
                for (m, t) in &f.harvests {
                    if *t > 0 && g.mints.contains_key(m) {
                        let w = pda(&farming::ID, &[b"probe", f.authority.as_ref(), m.as_ref()]);
                        put_token(&mut bank, w, m, &f.authority, 0);
                        pairs.push((g.mints[m].vault, w, *t));
                    }
                }
                if pairs.is_empty() {
                    continue;
                }
                let p: Vec<_> = pairs.iter().map(|p| (p.0, p.1)).collect();
                crate::watch::begin(obs.step, "claim_eligible_harvest", &["F06", "F07"]);
                let res = bank.run(&claim_eligible_harvest(f.authority, *fk, &p));
                crate::watch::end();
                obs.count("probe claims");
                if !res.ok || pairs.iter().any(|p| amount(&bank, &p.1) != p.2) {
                    obs.viol(
                        &["F06"],
                        format!("a farmer cannot claim {:?}: {} {:?}", pairs.iter().map(|p| p.2).collect::<Vec<_>>(), res.err, res.logs),
                    );
                }
            }
        }
    }

    pub fn custody(&mut self, farm: &Pubkey, after: &'static str, obs: &mut Obs) {
        let sum: u128 = self
            .farmers
            .iter()
            .filter(|(_, f)| f.farm == *farm)
            .map(|(k, _)| self.farmer_acc(k).map(|f| f.deposited()).unwrap_or(0))
            .sum();
        if let Some(g) = self.farms.get_mut(farm) {
            let vault = amount(&self.bank, &g.stake_vault) as u128;
            obs.eval("F01", hash64(&[key64(farm), vault as u64, sum as u64]), || {
                format!("vault {} = stakes {} + sent directly {}", vault, sum, g.donated)
            });
            if vault != sum + g.donated {
                obs.viol(
                    &["F01"],
                    format!(
                        "after {} the vault holds {} but stakes are {} and {} were sent directly",
                        after, vault, sum, g.donated
                    ),
                );
                g.donated = vault.saturating_sub(sum);
            }
        }
    }
}

pub fn obs_case(ix: &Ix, slot: u64) -> u64 {
    let mut parts = vec![slot, key64(&ix.program)];
    for c in ix.data.chunks(8) {
        let mut b = [0u8; 8];
        b[..c.len()].copy_from_slice(c);
        parts.push(u64::from_le_bytes(b));
    }
    for m in &ix.metas {
        parts.push(key64(&m.key) ^ (m.signer as u64) << 1 ^ m.writable as u64);
    }
    hash64(&parts).max(1)
}

/// What a vault of the native mint holds from the start: the lamports which
/// were sent to its address before it was created, beyond its rent.
fn vault_gift(mint: &Pubkey, before: &Acc) -> u64 {
    if *mint == native_mint() {
        before.lamports.saturating_sub(rent(165))
    } else {
        0
    }
}
