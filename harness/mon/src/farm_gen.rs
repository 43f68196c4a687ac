//! Workloads of the farming program.

use crate::abi::*;
use crate::bank::*;
use crate::farm::*;
use crate::hostile::*;
use crate::obs::*;
use crate::rng::Rng;
use solana_program::pubkey::Pubkey;
use solana_program::system_program;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub struct Gen {
    pub w: FarmWorld,
    pub rng: Rng,
    pub farms: Vec<Pubkey>,
    /// largest stake, largest tokens per slot
    pub max_stake: u64,
    pub max_tps: u64,
    pub max_len: u64,
    pub step_limit: usize,
    /// successful instructions with their slots and what their source wallet
    /// held, when recording
    pub record: Option<Vec<(u64, u64, Ix)>>,
}

const USERS: usize = 5;

/// What the wallet holds an instruction takes tokens from.
fn source_balance(bank: &Bank, ix: &Ix) -> u64 {
    ix.metas
        .iter()
        .find(|m| m.role == "stake_wallet" || m.role == "harvest_wallet")
        .map(|m| amount(bank, &m.key))
        .unwrap_or(0)
}

pub fn lamports_acc() -> Acc {
    Acc::new(LAMPORTS, vec![], system_program::ID)
}

pub fn zero_farm(bank: &mut Bank, key: Pubkey) {
    bank.put(
        key,
        Acc::new(rent(FARM_LEN), vec![0; FARM_LEN], farming::ID),
    );
}

impl Gen {
    pub fn new(mut rng: Rng, n_mints: usize, n_farms: usize) -> Self {
        let mut bank = Bank::new();
        let users: Vec<Pubkey> = (0..USERS).map(|_| rng.key()).collect();
        for u in &users {
            bank.put(*u, lamports_acc());
        }
        bank.put(attacker(), lamports_acc());
        let scale = *rng.pick(&[1u64, 1, 1, 1_000, 1_000_000_000_000]);
        let each = u64::MAX / (USERS as u64 + 2) / scale;
        let mut mints: Vec<Pubkey> = (0..n_mints).map(|_| rng.key()).collect();
        // wrapped lamports
        let wrapped = rng.chance(15);
        if wrapped {
            let i = rng.index(n_mints);
            mints[i] = native_mint();
        }
        let scale = if wrapped { scale.max(1_000) } else { scale };
        let each = each.min(u64::MAX / (USERS as u64 + 2) / scale);
        let mut wallets = BTreeMap::new();
        for m in &mints {
            let auth = rng.key();
            put_mint(&mut bank, *m, auth, u64::MAX / scale);
            let whale = rng.chance(15).then(|| users[rng.index(USERS)]);
            for u in users.iter().chain([&attacker()]) {
                let k = rng.key();
                let n = match whale {
                    Some(w) if w == *u => u64::MAX / scale / 16 * 15,
                    Some(_) => each / 16,
                    None => each,
                };
                put_token(&mut bank, k, m, u, n);
                wallets.insert((*u, *m), k);
            }
        }
        bank.slot = *rng.pick(&[1u64, 2, 10, 7_300, 123_456_789, (1 << 32) - 200, 1 << 40]);
        let mut g = Gen {
            w: FarmWorld {
                bank,
                farms: BTreeMap::new(),
                farmers: BTreeMap::new(),
                users,
                mints,
                wallets,
                claimed: BTreeMap::new(),
                taken: BTreeMap::new(),
                stir: BTreeMap::new(),
                earned: BTreeMap::new(),
            },
            farms: vec![],
            max_stake: *rng.pick(&[10u64, 1_000, 1_000_000, 1_000_000_000_000, u64::MAX / 16]),
            max_tps: *rng.pick(&[1u64, 7, 1_000, 1_000_000, 1_000_000_000_000]),
            max_len: *rng.pick(&[5u64, 50, 1_000, 100_000]),
            step_limit: usize::MAX,
            record: None,
            rng,
        };
        for _ in 0..n_farms {
            g.farms.push(g.rng.key());
        }
        g
    }

    pub fn done(&self, obs: &Obs) -> bool {
        obs.step >= self.step_limit
    }

    pub fn go(&mut self, ix: Ix, obs: &mut Obs) -> bool {
        if self.done(obs) {
            return false;
        }
        let slot = self.w.bank.slot;
        let held = source_balance(&self.w.bank, &ix);
        let ok = self.w.step(&ix, obs);
        if ok {
            if let Some(r) = self.record.as_mut() {
                r.push((slot, held, ix));
            }
        }
        ok
    }

    fn user(&mut self) -> Pubkey {
        let i = self.rng.index(self.w.users.len());
        self.w.users[i]
    }
    fn farm(&mut self) -> Pubkey {
        let i = self.rng.index(self.farms.len());
        self.farms[i]
    }
    fn mint(&mut self) -> Pubkey {
        let i = self.rng.index(self.w.mints.len());
        self.w.mints[i]
    }
    fn farm_mint(&mut self, farm: &Pubkey) -> Option<Pubkey> {
        let m: Vec<Pubkey> = self.w.farms.get(farm)?.mints.keys().copied().collect();
        if m.is_empty() {
            return None;
        }
        Some(*self.rng.pick(&m))
    }
    fn farmer(&mut self) -> Option<(Pubkey, GFarmer)> {
        if self.w.farmers.is_empty() {
            return None;
        }
        let i = self.rng.index(self.w.farmers.len());
        self.w.farmers.iter().nth(i).map(|(k, f)| (*k, f.clone()))
    }
    fn wallet(&self, user: Pubkey, mint: Pubkey) -> Pubkey {
        match self.w.wallets.get(&(user, mint)) {
            Some(w) => *w,
            None => self.w.wallets[&(self.w.users[0], mint)],
        }
    }

    /// Farms with their usual configuration.
    pub fn setup(&mut self, obs: &mut Obs, window: Option<u64>) {
        for (i, f) in self.farms.clone().into_iter().enumerate() {
            let admin = self.w.users[i % 2];
            let mint = if self.rng.chance(60) { self.w.mints[0] } else { self.mint() };
            zero_farm(&mut self.w.bank, f);
            self.go(create_farm(admin, f, mint), obs);
            if let Some(w) = window {
                self.go(set_min_snapshot_window(admin, f, w), obs);
            }
            let n = self.rng.range(1, 3.min(self.w.mints.len() as u64));
            for j in 0..n {
                let m = if j == 0 { self.w.mints[0] } else { self.mint() };
                if !self.w.farms.get(&f).map(|g| g.mints.contains_key(&m)).unwrap_or(true) {
                    self.go(add_harvest(admin, f, m), obs);
                }
            }
        }
    }

    pub fn advance(&mut self, obs: &mut Obs) {
        let now = self.w.bank.slot;
        let mut marks: BTreeSet<u64> = BTreeSet::new();
        for g in self.w.farms.values() {
            let due = g.last_snap().saturating_add(g.min_window());
            marks.extend([due.saturating_sub(1), due, due.saturating_add(1)]);
            for m in g.mints.values() {
                for p in m.kept.iter().take(2) {
                    marks.extend([p.start, p.start.saturating_add(1), p.end, p.end.saturating_add(1)]);
                    marks.insert(p.start.saturating_sub(1));
                }
            }
        }
        let ahead: Vec<u64> = marks
            .into_iter()
            .filter(|m| *m > now && *m < now + 10_000_000)
            .collect();
        let to = match self.rng.below(10) {
            0..=3 if !ahead.is_empty() => *self.rng.pick(&ahead),
            4..=6 => now + 1,
            7 => now + self.rng.range(1, 8),
            8 => now + self.rng.log(self.max_len * 2),
            9 if self.rng.chance(3) => now + self.rng.log(1 << 33),
            _ => now + 1 + self.rng.log(20_000),
        };
        self.w.bank.slot = to;
        obs.note(|| format!("slot {} -> {}", now, to));
    }

    pub fn amount(&mut self, max: u64) -> u64 {
        match self.rng.below(8) {
            0 => 1,
            1 => self.rng.range(1, 3),
            2 => max.max(1),
            3..=4 => self.rng.range(1, max.max(1)),
            _ => self.rng.log(max).max(1),
        }
    }

    fn ensure_farmer(&mut self, user: Pubkey, farm: Pubkey, obs: &mut Obs) -> Pubkey {
        let k = farmer_pda(&farm, &user);
        if !self.w.farmers.contains_key(&k) {
            let payer = self.user();
            if self.rng.chance(10) {
                // somebody sent lamports there first
                let l = *self.rng.pick(&[1u64, 890_880, rent(FARMER_LEN), LAMPORTS / 100]);
                if !self.w.bank.accs.contains_key(&k) {
                    self.w.bank.put(k, Acc::new(l, vec![], system_program::ID));
                }
            }
            self.go(create_farmer(payer, user, farm), obs);
        }
        k
    }

    /// A plausible instruction of the given kind.
    pub fn make(&mut self, op: &str, obs: &mut Obs) -> Option<Ix> {
        let now = self.w.bank.slot;
        Some(match op {
            "snapshot" => take_snapshot(self.farm()),
            "stake" => {
                let (u, f) = (self.user(), self.farm());
                let k = self.ensure_farmer(u, f, obs);
                let mint = self.w.farms.get(&f)?.stake_mint;
                let payer = if self.rng.chance(85) { u } else { self.user() };
                let mut n = self.amount(self.max_stake);
                if self.rng.chance(2) {
                    // everything
                    n = amount(&self.w.bank, &self.wallet(payer, mint));
                }
                start_farming(payer, k, self.wallet(payer, mint), f, n)
            }
            "unstake" => {
                let (_, g) = self.farmer()?;
                let mint = self.w.farms.get(&g.farm)?.stake_mint;
                let to = if self.rng.chance(85) { g.owner } else { self.user() };
                let total = g.total().min(u64::MAX as u128) as u64;
                let n = match self.rng.below(6) {
                    0 => u64::MAX,
                    1 => total,
                    2 => g.waiting.max(1),
                    3 => g.waiting.saturating_add(1),
                    _ => self.amount(total),
                };
                let w = if self.rng.chance(97) { self.wallet(to, mint) } else { stake_vault(&g.farm) };
                stop_farming(g.owner, w, g.farm, n)
            }
            "update" => {
                let (k, g) = self.farmer()?;
                update_eligible_harvest(g.farm, k, None)
            }
            "until" => {
                let (k, g) = self.farmer()?;
                let snap = self.w.farms.get(&g.farm)?.last_snap();
                let u = match self.rng.below(8) {
                    0 => now,
                    1 => now + 5,
                    2 => snap,
                    3 => snap.saturating_sub(1),
                    4 => g.next,
                    5 => u64::MAX,
                    6 => g.dep_slot + 1,
                    _ => self.rng.range(g.next.min(now), now),
                };
                update_eligible_harvest(g.farm, k, Some(u))
            }
            "claim" => {
                let (k, g) = self.farmer()?;
                let f = self.w.farmer_acc(&k)?;
                let mut pairs = vec![];
                for (m, t) in &f.harvests {
                    let take = if *t > 0 { 80 } else { 20 };
                    if self.w.farms.get(&g.farm)?.mints.contains_key(m) && self.rng.chance(take) {
                        let to = if self.rng.chance(85) { g.owner } else { self.user() };
                        pairs.push((harvest_vault(&g.farm, m), self.wallet(to, *m)));
                        if self.rng.chance(8) {
                            let p = *pairs.last().unwrap();
                            pairs.push(p);
                        }
                    }
                }
                self.rng.shuffle(&mut pairs);
                let mut ix = claim_eligible_harvest(g.owner, g.farm, &pairs);
                if self.rng.chance(4) && !pairs.is_empty() {
                    // an account's missing or surplus
                    ix.plain = false;
                    if self.rng.chance(50) {
                        ix.metas.pop();
                    } else {
                        let at = self.rng.index(ix.metas.len());
                        let mut m = ix.metas[at].clone();
                        m.role = REM;
                        ix.metas.push(m);
                    }
                }
                ix
            }
            "period" => {
                let f = self.farm();
                let m = self.farm_mint(&f)?;
                let g = self.w.farms.get(&f)?;
                let admin = g.admin;
                let kept = g.mints[&m].kept.clone();
                let latest = kept.iter().find(|p| p.start <= now).copied();
                let start = match self.rng.below(10) {
                    0..=3 => 0,
                    4 => now,
                    5 => latest.map(|p| p.end.saturating_add(1)).unwrap_or(now + 1),
                    6 => latest.map(|p| p.end).unwrap_or(now + 1),
                    7 => now.saturating_sub(1),
                    8 => now + self.rng.range(1, 30),
                    _ => now + self.rng.log(self.max_len),
                };
                let len = match self.rng.below(12) {
                    0 => 1,
                    1 => 2,
                    2 => 0,
                    3 => 3,
                    _ => self.rng.log(self.max_len).max(2),
                };
                let tps = match self.rng.below(10) {
                    0 => 0,
                    1 => u64::MAX / len.max(1),
                    2 => {
                        // exactly the wallet's balance, or one more
                        let w = self.wallet(admin, m);
                        let b = amount(&self.w.bank, &w) / len.max(1);
                        b + self.rng.below(2)
                    }
                    _ => self.rng.log(self.max_tps),
                };
                let tps = if self.rng.chance(90) { tps.min(self.max_tps) } else { tps };
                let (len, tps) = if self.rng.chance(4) {
                    // the product is a multiple of 2^64 and a bit
                    let a = self.rng.range(1, 12);
                    let l = 1u64 << a;
                    (l, (1u64 << (64 - a)).wrapping_mul(self.rng.range(1, l.max(2) - 1)) + self.rng.below(3))
                } else {
                    (len, tps)
                };
                let (start, len, tps) = match self.rng.below(100) {
                    // up to the end of time
                    0 => ((u64::MAX - len.min(1 << 40)).saturating_add(self.rng.below(3)), len, tps),
                    1 => (u64::MAX, self.rng.below(3), tps),
                    // so long that it eats up the wallet
                    2 => {
                        let w = self.wallet(admin, m);
                        let b = amount(&self.w.bank, &w);
                        (start, (b / 2).max(1) - self.rng.below(2), self.rng.range(1, 2))
                    }
                    3 => (start, u64::MAX - self.rng.below(3), self.rng.below(3)),
                    _ => (start, len, tps),
                };
                new_harvest_period(admin, f, self.wallet(admin, m), m, start, len, tps)
            }
            "compound" => {
                let (k, g) = self.farmer()?;
                let m = self.w.farms.get(&g.farm)?.stake_mint;
                compound_same_farm(g.farm, k, m)
            }
            "across" => {
                let (k, g) = self.farmer()?;
                let t = self.farm();
                let tk = if self.rng.chance(80) {
                    self.ensure_farmer(g.owner, t, obs)
                } else {
                    let u = self.user();
                    self.ensure_farmer(u, t, obs)
                };
                let m = self.w.farms.get(&t)?.stake_mint;
                let mut ix = compound_across_farms(g.farm, t, k, tk, m);
                if self.rng.chance(15) {
                    // one of the accounts belongs to another farm
                    let o = self.farm();
                    let ok = self.ensure_farmer(g.owner, o, obs);
                    let role = *self.rng.pick(&["target_farmer", "target_farmer", "source_farmer"]);
                    ix.set(role, ok);
                    ix.plain = false;
                } else if self.rng.chance(10) {
                    let o = self.farm();
                    match self.rng.below(5) {
                        0 => ix.set("source_farm", o),
                        1 => ix.set("target_farm", o),
                        2 => ix.set("target_stake_vault", stake_vault(&o)),
                        3 => ix.set("source_harvest_vault", harvest_vault(&o, &m)),
                        _ => {
                            let w = if self.rng.chance(50) { whitelist_pda(&o, &t) } else { whitelist_pda(&g.farm, &o) };
                            ix.set("whitelist_compounding", w);
                        }
                    }
                    ix.plain = false;
                }
                ix
            }
            "whitelist" => {
                let (a, b) = (self.farm(), self.farm());
                let admin = self.w.farms.get(&a)?.admin;
                whitelist(admin, a, b)
            }
            "dewhitelist" => {
                let (a, b) = (self.farm(), self.farm());
                let admin = self.w.farms.get(&a)?.admin;
                dewhitelist(admin, a, b)
            }
            "airdrop" => {
                let (k, g) = self.farmer()?;
                let m = if self.rng.chance(80) { self.farm_mint(&g.farm)? } else { self.mint() };
                let u = self.user();
                let n = if self.rng.chance(5) { 0 } else { self.amount(self.max_stake) };
                airdrop(u, g.farm, k, self.wallet(u, m), m, n)
            }
            "create_farmer" => {
                let (p, u, f) = (self.user(), self.user(), self.farm());
                // somebody new, while the farm is already running
                let late = self.w.users.iter().all(|u| self.w.farmers.contains_key(&farmer_pda(&f, u)));
                let u = if late && self.rng.chance(30) { self.rng.key() } else { u };
                create_farmer(p, u, f)
            }
            "close_farmer" => {
                let (_, g) = self.farmer()?;
                close_farmer(g.owner, g.farm)
            }
            "add_harvest" => {
                let f = self.farm();
                let admin = self.w.farms.get(&f)?.admin;
                let m = self.mint();
                add_harvest(admin, f, m)
            }
            "remove_harvest" => {
                let f = self.farm();
                let admin = self.w.farms.get(&f)?.admin;
                let m = if self.rng.chance(80) { self.farm_mint(&f)? } else { self.mint() };
                remove_harvest(admin, f, m)
            }
            "window" => {
                let f = self.farm();
                let admin = self.w.farms.get(&f)?.admin;
                let n = *self.rng.pick(&[0u64, 1, 2, 10, 100, 7_199, 7_200, u64::MAX]);
                set_min_snapshot_window(admin, f, n)
            }
            "owner" => {
                let f = self.farm();
                let admin = self.w.farms.get(&f)?.admin;
                let u = self.user();
                set_farm_owner(admin, u, f)
            }
            "create_farm" => {
                let u = self.user();
                let m = self.mint();
                let f = if self.rng.chance(40) { self.farm() } else { self.rng.key() };
                if !self.w.bank.accs.contains_key(&f) {
                    zero_farm(&mut self.w.bank, f);
                }
                create_farm(u, f, m)
            }
            _ => panic!("op {}", op),
        })
    }

    pub fn donate(&mut self) {
        let f = self.farm();
        let n = self.amount(self.max_stake / 2 + 1);
        let (to, mint) = {
            let g = match self.w.farms.get(&f) {
                Some(g) => g,
                None => return,
            };
            let m = g.mints.iter().next().map(|(k, m)| (m.vault, *k));
            match m {
                Some(x) if self.rng.chance(40) => x,
                _ => (g.stake_vault, g.stake_mint),
            }
        };
        let u = self.user();
        let from = self.wallet(u, mint);
        let (a, b) = (amount(&self.w.bank, &from), amount(&self.w.bank, &to));
        if a < n || from == to {
            return;
        }
        set_amount(&mut self.w.bank, &from, a - n);
        set_amount(&mut self.w.bank, &to, b + n);
        self.w.gift(&to, n as u128);
    }

    pub fn probes(&mut self, obs: &mut Obs, all: bool) {
        if obs.wants("F02") {
            if all {
                for k in self.w.farmers.keys() {
                    self.w.probe_unstake(k, obs);
                }
            } else if let Some((k, _)) = self.farmer() {
                self.w.probe_unstake(&k, obs);
            }
        }
        if obs.wants("F17") && (all || self.rng.chance(70)) {
            self.w.probe_earned(obs);
        }
        if obs.wants("F06") && (all || self.rng.chance(35)) {
            self.w.probe_solvency(obs);
        }
    }

    pub fn play(&mut self, ops: &[(u64, &str)], steps: usize, probe: u64, obs: &mut Obs) {
        for _ in 0..steps {
            if self.done(obs) {
                return;
            }
            let op = *self.rng.weighted(ops);
            match op {
                "advance" => self.advance(obs),
                "donate" => self.donate(),
                "burst" => self.burst(obs),
                "evict" => self.evict(obs),
                "hostile" => {
                    let base = *self.rng.pick(&[
                        "snapshot", "stake", "stake", "unstake", "unstake", "update", "until", "claim",
                        "claim", "period", "compound", "across", "whitelist", "dewhitelist", "airdrop",
                        "create_farmer", "close_farmer", "add_harvest", "remove_harvest", "window",
                        "owner", "create_farm",
                    ]);
                    if let Some(mut ix) = self.make(base, obs) {
                        let mut what = vec![];
                        for _ in 0..1 + self.rng.chance(30) as u32 {
                            let users = self.w.users.clone();
                            what.push(mutate(&mut ix, &mut self.w.bank, &users, &mut self.rng));
                        }
                        obs.note(|| format!("hostile: {:?}", what));
                        obs.count("hostile instructions");
                        self.go(ix, obs);
                    }
                }
                _ => {
                    if let Some(ix) = self.make(op, obs) {
                        self.go(ix, obs);
                    }
                }
            }
            if self.rng.chance(probe) {
                self.probes(obs, false);
            }
        }
        if !self.done(obs) {
            self.probes(obs, true);
        }
    }

    /// All ten periods of a mint in use, a snapshot in (almost) every slot, and
    /// new periods while the oldest one is about to leave the history.
    fn evict(&mut self, obs: &mut Obs) {
        let f = self.farm();
        let (m, admin) = match (self.farm_mint(&f), self.w.farms.get(&f)) {
            (Some(m), Some(g)) if g.min_window() == 1 => (m, g.admin),
            _ => return,
        };
        let wallet = self.wallet(admin, m);
        let mut tries = 0;
        for _ in 0..4000 {
            if self.done(obs) {
                return;
            }
            let now = self.w.bank.slot;
            let (kept, oldest, last) = match self.w.farms.get(&f) {
                Some(g) if g.mints.contains_key(&m) => {
                    let full = g.snaps.len() >= 1000;
                    (g.mints[&m].kept.clone(), if full { g.oldest_retained() } else { 0 }, g.last_snap())
                }
                _ => return,
            };
            let running = kept.first().map(|p| p.end).unwrap_or(0) >= now;
            if kept.first().map(|p| p.end >= now.saturating_add(50)).unwrap_or(false) {
                return;
            }
            let full = kept.len() == 10;
            let near = full && oldest != 0 && kept[9].end.abs_diff(oldest) <= 2;
            if !running && (!full || near || self.rng.chance(1)) {
                let len = self.rng.range(2, 4);
                let tps = self.rng.log(self.max_tps).min(u64::MAX / 8);
                let ix = new_harvest_period(admin, f, wallet, m, 0, len, tps);
                // who wasn't settled since the oldest period loses nothing
                if self.go(ix, obs) && full {
                    let all: Vec<Pubkey> =
                        self.w.farmers.iter().filter(|(_, g)| g.farm == f).map(|(k, _)| *k).collect();
                    for k in all {
                        if !self.done(obs) && self.rng.chance(30) {
                            self.go(update_eligible_harvest(f, k, None), obs);
                        }
                    }
                }
            } else if full && oldest > kept[9].end.saturating_add(2) {
                tries += 1;
                if tries > 3 {
                    return;
                }
            }
            if last < now {
                self.go(take_snapshot(f), obs);
            }
            self.w.bank.slot += 1;
        }
    }

    /// Many snapshots in a row.
    fn burst(&mut self, obs: &mut Obs) {
        let f = self.farm();
        let mut n = *self.rng.pick(&[3u64, 20, 120, 400, 990, 1005]);
        // up to where the ring of snapshots starts over
        let edge = self.rng.chance(30);
        if edge {
            let k = self.w.farms.get(&f).map(|g| g.snaps.len() as u64 % 1000).unwrap_or(0);
            n = 998 - k.min(998) + self.rng.below(5) + if self.rng.chance(10) { 1000 } else { 0 };
        }
        let w = match self.w.farms.get(&f) {
            Some(g) => g.min_window(),
            None => return,
        };
        if w > 7200 {
            return;
        }
        for _ in 0..n {
            if self.done(obs) {
                return;
            }
            let now = self.w.bank.slot;
            let due = self.w.farms[&f].last_snap() + w;
            self.w.bank.slot = now.max(due) + self.rng.below(10) / 9;
            let ix = take_snapshot(f);
            self.go(ix, obs);
        }
        // there, every farmer is settled
        if edge {
            let all: Vec<Pubkey> = self.w.farmers.iter().filter(|(_, g)| g.farm == f).map(|(k, _)| *k).collect();
            for k in all {
                if self.done(obs) {
                    return;
                }
                if self.rng.chance(50) {
                    self.go(update_eligible_harvest(f, k, None), obs);
                }
            }
        }
    }
}

pub const MIX: &[(u64, &str)] = &[
    (22, "advance"),
    (14, "snapshot"),
    (14, "stake"),
    (9, "unstake"),
    (10, "update"),
    (5, "until"),
    (7, "claim"),
    (8, "period"),
    (4, "compound"),
    (4, "across"),
    (2, "airdrop"),
    (2, "create_farmer"),
    (3, "close_farmer"),
    (2, "add_harvest"),
    (2, "remove_harvest"),
    (1, "window"),
    (1, "owner"),
    (2, "whitelist"),
    (1, "dewhitelist"),
    (2, "donate"),
    (6, "hostile"),
];
pub const LONG: &[(u64, &str)] = &[
    (1, "evict"),
    (16, "advance"),
    (4, "burst"),
    (10, "snapshot"),
    (10, "stake"),
    (7, "unstake"),
    (7, "update"),
    (5, "until"),
    (4, "claim"),
    (8, "period"),
    (2, "compound"),
    (2, "across"),
    (1, "whitelist"),
    (1, "create_farmer"),
];
pub const HOSTILE: &[(u64, &str)] = &[
    (14, "advance"),
    (6, "snapshot"),
    (8, "stake"),
    (2, "unstake"),
    (3, "update"),
    (2, "claim"),
    (4, "period"),
    (1, "compound"),
    (1, "across"),
    (2, "airdrop"),
    (2, "whitelist"),
    (1, "add_harvest"),
    (70, "hostile"),
];
pub const PERIODS_OPS: &[(u64, &str)] = &[
    (1, "evict"),
    (22, "advance"),
    (6, "snapshot"),
    (2, "burst"),
    (4, "stake"),
    (4, "update"),
    (3, "claim"),
    (40, "period"),
    (1, "owner"),
    (2, "remove_harvest"),
    (2, "add_harvest"),
    (2, "create_farmer"),
    (2, "close_farmer"),
    (2, "airdrop"),
    (4, "hostile"),
];
pub const MINTS_OPS: &[(u64, &str)] = &[
    (12, "advance"),
    (5, "snapshot"),
    (6, "stake"),
    (3, "unstake"),
    (8, "update"),
    (4, "claim"),
    (6, "period"),
    (30, "add_harvest"),
    (18, "remove_harvest"),
    (4, "airdrop"),
    (4, "create_farmer"),
    (3, "close_farmer"),
    (2, "compound"),
    (1, "whitelist"),
];
pub const COMPOUND_OPS: &[(u64, &str)] = &[
    (20, "advance"),
    (12, "snapshot"),
    (10, "stake"),
    (4, "unstake"),
    (4, "update"),
    (3, "claim"),
    (8, "period"),
    (14, "compound"),
    (14, "across"),
    (6, "whitelist"),
    (2, "dewhitelist"),
    (2, "airdrop"),
    (3, "hostile"),
];
pub const STEADY_OPS: &[(u64, &str)] = &[
    (28, "advance"),
    (20, "snapshot"),
    (8, "update"),
    (4, "until"),
    (4, "claim"),
    (14, "period"),
    (2, "stake"),
    (1, "unstake"),
    (2, "airdrop"),
    (2, "compound"),
    (1, "burst"),
    (1, "create_farmer"),
];
pub const TWIN_OPS: &[(u64, &str)] = &[
    (24, "advance"),
    (14, "snapshot"),
    (16, "stake"),
    (10, "unstake"),
    (4, "update"),
    (4, "claim"),
    (9, "period"),
];

/// One history of the named workload.
pub fn run(profile: &str, seed: u64, hist: u64, limit: usize, obs: &mut Obs) {
    let tag = profile.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    let mut rng = Rng::mix(&[seed, tag, hist]);
    let window = |r: &mut Rng| Some(*r.pick(&[1u64, 1, 2, 5, 20, 100]));
    match profile {
        "mix" => {
            let n = rng.range(2, 5) as usize;
            let w = if rng.chance(85) { window(&mut rng) } else { None };
            let nf = rng.range(1, 3) as usize;
            let mut g = Gen::new(rng, n, nf);
            g.step_limit = limit;
            g.setup(obs, w);
            g.play(MIX, 160, 6, obs);
        }
        "long" => {
            let mut g = Gen::new(rng, 2, 1);
            g.step_limit = limit;
            g.setup(obs, Some(1));
            g.play(LONG, 120, 12, obs);
        }
        "hostile" => {
            let w = window(&mut rng);
            let mut g = Gen::new(rng, 3, 2);
            g.step_limit = limit;
            g.setup(obs, w);
            g.play(HOSTILE, 250, 4, obs);
        }
        "periods" => {
            let mut g = Gen::new(rng, 2, 1);
            g.step_limit = limit;
            g.max_len = *g.rng.pick(&[3u64, 10, 60]);
            g.setup(obs, Some(1));
            g.play(PERIODS_OPS, 160, 4, obs);
        }
        "mints" => {
            let w = window(&mut rng);
            let mut g = Gen::new(rng, 13, 1);
            g.step_limit = limit;
            g.setup(obs, w);
            g.play(MINTS_OPS, 160, 5, obs);
        }
        "compound" => {
            let w = window(&mut rng);
            let n = rng.range(1, 2) as usize;
            let nf = *rng.pick(&[2usize, 2, 3]);
            let mut g = Gen::new(rng, n, nf);
            g.step_limit = limit;
            g.setup(obs, w);
            for a in g.farms.clone() {
                for b in g.farms.clone() {
                    if g.rng.chance(60) {
                        let admin = g.w.farms[&a].admin;
                        g.go(whitelist(admin, a, b), obs);
                    }
                }
            }
            g.play(COMPOUND_OPS, 160, 6, obs);
        }
        "steady" => {
            let w = Some(*rng.pick(&[1u64, 1, 2, 5]));
            let mut g = Gen::new(rng, 2, 1);
            g.step_limit = limit;
            g.max_len = *g.rng.pick(&[10u64, 60, 1000]);
            g.setup(obs, w);
            for _ in 0..g.rng.range(2, 5) {
                if let Some(ix) = g.make("stake", obs) {
                    g.go(ix, obs);
                }
            }
            let f = g.farms[0];
            g.w.bank.slot += 2;
            g.go(take_snapshot(f), obs);
            let admin = g.w.farms.get(&f).map(|f| f.admin);
            for _ in 0..2 {
                if let (Some(a), true) = (admin, g.rng.chance(50)) {
                    g.go(whitelist(a, f, f), obs);
                }
            }
            g.play(STEADY_OPS, 120, 25, obs);
        }
        "twin" => twin(rng, limit, obs),
        _ => panic!("unknown profile {}", profile),
    }
    let _ = Arc::new(());
}

/// F04: the same history with and without additional updates.
fn twin(mut rng: Rng, limit: usize, obs: &mut Obs) {
    let w = Some(*rng.pick(&[1u64, 1, 2, 5, 20]));
    let long = rng.chance(6);
    let mut g = Gen::new(rng, 2, 1);
    g.step_limit = limit;
    let mut side = g.rng.clone();
    side.next();
    let start = (g.w.clone(), g.rng.clone());
    let _ = start;
    let initial = g.w.clone();
    g.record = Some(vec![]);
    // the farm's account is created outside of the programs
    let farms = g.farms.clone();
    g.setup(obs, w);
    g.play(TWIN_OPS, 70, 3, obs);
    if long {
        g.burst(obs);
        g.play(TWIN_OPS, 20, 3, obs);
    }
    if g.done(obs) {
        return;
    }
    let end = g.w.bank.slot + g.rng.below(5);
    let rec = g.record.take().unwrap();
    let mut b = initial;
    for f in farms {
        zero_farm(&mut b.bank, f);
    }
    // lamports sent by the environment
    for (k, a) in &g.w.bank.accs {
        if !b.bank.accs.contains_key(k) && a.owner == system_program::ID && a.data.is_empty() {
            b.bank.put(*k, a.clone());
        }
    }
    let mut extra = 0u64;
    for (slot, held, ix) in &rec {
        let from = b.bank.slot;
        for round in 0..2 {
            // before the instruction, at earlier slots or in its own slot
            let n = if round == 0 { side.below(3) } else { 0 };
            let mut slots: Vec<u64> = (0..n)
                .map(|_| if side.chance(50) { *slot } else { side.range(from, *slot) })
                .collect();
            slots.sort_unstable();
            for s in slots {
                b.bank.slot = s.max(b.bank.slot);
                let i = side.index(b.farmers.len().max(1));
                if let Some((k, f)) = b.farmers.iter().nth(i).map(|(k, f)| (*k, f.clone())) {
                    let until = match side.below(4) {
                        0 => Some(side.range(f.next.min(s), s + 2)),
                        1 => Some(s.saturating_sub(side.below(3))),
                        _ => None,
                    };
                    b.step(&update_eligible_harvest(f.farm, k, until), obs);
                    extra += 1;
                }
            }
        }
        b.bank.slot = *slot;
        if obs.step >= limit {
            return;
        }
        let holds = source_balance(&b.bank, ix);
        if !b.step(ix, obs) {
            // claims pay what is settled: with other settlements in between a wallet
            // can be short of what it held (the sum over all claims is compared below)
            if holds < *held {
                obs.count("twin runs ended by a wallet paid less");
                return;
            }
            obs.viol(
                &["F04"],
                format!("{} at slot {} fails when updates are inserted before it", ix.name, slot),
            );
            return;
        }
    }
    let a = &mut g.w;
    a.bank.slot = end.max(b.bank.slot);
    b.bank.slot = a.bank.slot;
    let farmers: Vec<(Pubkey, GFarmer)> = a.farmers.iter().map(|(k, f)| (*k, f.clone())).collect();
    for (k, f) in &farmers {
        a.step(&update_eligible_harvest(f.farm, *k, None), obs);
        b.step(&update_eligible_harvest(f.farm, *k, None), obs);
    }
    for (k, f) in &farmers {
        let (x, y) = match (a.farmer_acc(k), b.farmer_acc(k)) {
            (Some(x), Some(y)) => (x, y),
            _ => continue,
        };
        if a.farmers.get(k).map(|f| f.lost) != Some(false)
            || b.farmers.get(k).map(|f| f.lost) != Some(false)
        {
            continue;
        }
        let gf = &a.farms[&f.farm];
        let settles = rec.len() as u128 + extra as u128;
        for (m, gm) in &gf.mints {
            let tot = |w: &FarmWorld, acc: &FarmerAcc| {
                acc.tokens(m) as u128 + w.claimed.get(&(*k, *m)).copied().unwrap_or(0)
            };
            let (ta, tb) = (tot(a, &x), tot(&b, &y));
            let emitted = gm.emitted();
            let slack = gf.snaps.len() as u128 + settles + emitted / 100_000_000_000_000_000 + 1;
            let case = if ta > 0 { hash64(&[key64(k), key64(m), ta as u64, tb as u64, extra]) } else { 0 };
            obs.eval("F04", case, || {
                format!("twin runs: {} tokens without and {} with {} additional updates", ta, tb, extra)
            });
            obs.count("twin comparisons");
            if ta.abs_diff(tb) > slack {
                obs.viol(
                    &["F04"],
                    format!(
                        "harvest is {} without and {} with {} additional updates (allowed difference {})",
                        ta, tb, extra, slack
                    ),
                );
            }
        }
    }
}
