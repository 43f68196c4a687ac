//! Workloads of the AMM program.

use crate::abi::*;
use crate::amm::*;
use crate::bank::*;
use crate::hostile::*;
use crate::obs::*;
use crate::rng::Rng;
use solana_program::pubkey::Pubkey;
use solana_program::system_program;
use std::collections::BTreeMap;
use std::sync::Arc;

const USERS: usize = 4;

pub struct Gen {
    pub w: AmmWorld,
    pub rng: Rng,
    pub pools: Vec<Pubkey>,
    pub upgrader: Pubkey,
    pub toll_auth: Pubkey,
    pub disc_auth: Pubkey,
    /// largest reserve
    pub scale: u64,
    pub step_limit: usize,
    /// tampers with the lists of limits and accounts
    odd: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Op {
    Swap,
    TinySwap,
    BigSwap,
    Drain,
    Deposit,
    TightDeposit,
    SkewedDeposit,
    Redeem,
    RedeemAll,
    Fee,
    Discount,
    Donate,
    Move,
    Burn,
    Slots,
    Hostile,
    Self_,
    Probe,
    Pool,
    Prefund,
    Settings,
    Delegate,
}
use Op::*;

pub const MIX: &[(u64, Op)] = &[
    (30, Swap),
    (8, TinySwap),
    (6, BigSwap),
    (2, Drain),
    (8, Deposit),
    (4, TightDeposit),
    (5, SkewedDeposit),
    (9, Redeem),
    (2, RedeemAll),
    (4, Fee),
    (5, Discount),
    (2, Donate),
    (2, Move),
    (1, Burn),
    (4, Slots),
    (3, Probe),
    (1, Self_),
    (1, Prefund),
    (1, Delegate),
];
pub const TRADE: &[(u64, Op)] = &[
    (30, Swap),
    (20, TinySwap),
    (20, BigSwap),
    (10, Drain),
    (3, Deposit),
    (3, Redeem),
    (2, Fee),
    (2, Discount),
    (1, Slots),
    (2, Probe),
];
pub const LIQUIDITY: &[(u64, Op)] = &[
    (12, Swap),
    (4, BigSwap),
    (20, Deposit),
    (15, TightDeposit),
    (15, SkewedDeposit),
    (25, Redeem),
    (5, RedeemAll),
    (4, Move),
    (2, Burn),
    (2, Donate),
    (2, Fee),
    (4, Probe),
];
pub const DISCOUNT: &[(u64, Op)] = &[
    (30, Swap),
    (10, BigSwap),
    (25, Discount),
    (5, Fee),
    (15, Slots),
    (6, Prefund),
    (6, Hostile),
    (2, Deposit),
    (4, Settings),
];
pub const HOSTILE: &[(u64, Op)] = &[
    (50, Hostile),
    (12, Swap),
    (6, Deposit),
    (6, Redeem),
    (2, Discount),
    (2, Fee),
    (2, Slots),
    (2, Self_),
    (2, Delegate),
    (2, Donate),
    (3, Settings),
];
pub const CREATE: &[(u64, Op)] = &[
    (40, Pool),
    (6, Swap),
    (6, Deposit),
    (6, Redeem),
    (4, Settings),
    (2, Probe),
];

impl Gen {
    pub fn new(mut rng: Rng, n_mints: usize) -> Self {
        let mut bank = Bank::new();
        let users: Vec<Pubkey> = (0..USERS).map(|_| rng.key()).collect();
        let (upgrader, toll_auth, disc_auth) = (rng.key(), rng.key(), rng.key());
        for u in users.iter().chain([&upgrader, &toll_auth, &disc_auth, &attacker()]) {
            bank.put(*u, Acc::new(LAMPORTS, vec![], system_program::ID));
        }
        put_amm(&mut bank, Some(upgrader));
        let mut mints: Vec<Pubkey> = (0..n_mints).map(|_| rng.key()).collect();
        let mut each = u64::MAX / (USERS as u64 + 2);
        // wrapped lamports
        if rng.chance(12) {
            let i = rng.index(n_mints);
            mints[i] = native_mint();
            each /= 100;
        }
        let mut wallets = BTreeMap::new();
        for m in &mints {
            let auth = rng.key();
            put_mint(&mut bank, *m, auth, u64::MAX);
            for u in users.iter().chain([&attacker()]) {
                let k = rng.key();
                put_token(&mut bank, k, m, u, each);
                wallets.insert((*u, *m), k);
            }
        }
        bank.slot = *rng.pick(&[1u64, 10, 123_456_789, (1 << 32) - 20, 1 << 40]);
        Gen {
            w: AmmWorld {
                bank,
                pools: BTreeMap::new(),
                toll: None,
                settings: None,
                discounts: BTreeMap::new(),
                users,
                mints,
                wallets,
            },
            pools: vec![],
            upgrader,
            toll_auth,
            disc_auth,
            scale: 1_000_000_000,
            odd: false,
            step_limit: usize::MAX,
            rng,
        }
    }

    pub fn done(&self, obs: &Obs) -> bool {
        obs.step >= self.step_limit
    }
    pub fn go(&mut self, ix: Ix, obs: &mut Obs) -> bool {
        if self.done(obs) {
            return false;
        }
        self.w.step(&ix, obs)
    }
    fn user(&mut self) -> Pubkey {
        let i = self.rng.index(self.w.users.len());
        self.w.users[i]
    }
    fn wallet(&self, user: Pubkey, mint: Pubkey) -> Pubkey {
        self.w
            .wallets
            .get(&(user, mint))
            .copied()
            .unwrap_or(self.w.wallets[&(self.w.users[0], self.w.mints[0])])
    }
    fn pool(&mut self) -> Option<(Pubkey, GPool)> {
        if self.w.pools.is_empty() {
            return None;
        }
        let i = self.rng.index(self.w.pools.len());
        self.w.pools.iter().nth(i).map(|(k, p)| (*k, p.clone()))
    }

    /// The accounts a pool is created from; wallets for its LP tokens.
    fn prepare_pool(&mut self, admin: Pubkey, mints: &[Pubkey], amp: u64) -> Ix {
        let pool = self.rng.key();
        let signer = pool_signer(&pool);
        let lp = self.rng.key();
        put_mint(&mut self.w.bank, lp, signer, 0);
        let mut vaults = vec![];
        for m in mints {
            let v = self.rng.key();
            put_token(&mut self.w.bank, v, m, &signer, 0);
            vaults.push(v);
        }
        let tw = self.rng.key();
        put_token(&mut self.w.bank, tw, &lp, &self.toll_auth, 0);
        for u in self.w.users.clone().into_iter().chain([attacker()]) {
            let k = self.rng.key();
            put_token(&mut self.w.bank, k, &lp, &u, 0);
            self.w.wallets.insert((u, lp), k);
        }
        self.w.wallets.insert((self.toll_auth, lp), tw);
        create_pool(admin, pool, tw, lp, amp, &vaults)
    }

    /// Attempts at the settings while there are none yet, and then at the
    /// settings which exist.
    pub fn claim_settings(&mut self, obs: &mut Obs) {
        // other people's programs: deployed like the AMM, but theirs
        let mut theirs = vec![];
        for i in 0..3u64 {
            let (prog, meta) = (self.rng.key(), self.rng.key());
            let who = match i {
                0 => Some(attacker()),
                1 => Some(self.w.users[0]),
                _ => None,
            };
            let a = &self.w.bank.get(&amm::ID);
            let mut pa = a.clone();
            Arc::make_mut(&mut pa.data)[4..36].copy_from_slice(meta.as_ref());
            self.w.bank.put(prog, pa);
            let mut ma = self.w.bank.get(&metadata_key());
            {
                let d = Arc::make_mut(&mut ma.data);
                d[12] = who.is_some() as u8;
                d[13..45].copy_from_slice(who.unwrap_or_default().as_ref());
            }
            self.w.bank.put(meta, ma.clone());
            theirs.push((prog, meta, who));
            if i == 0 {
                // the same written into an account of another program
                let k = self.rng.key();
                ma.owner = *self.rng.pick(&[fake_program(), system_program::ID, attacker()]);
                self.w.bank.put(k, ma.clone());
                theirs.push((prog, k, who));
                // a program, not its metadata; a buffer
                theirs.push((prog, prog, who));
                let k = self.rng.key();
                let mut d = vec![1u8, 0, 0, 0, 1];
                d.extend_from_slice(attacker().as_ref());
                d.resize(96, 0);
                ma.owner = solana_program::bpf_loader_upgradeable::ID;
                ma.data = Arc::new(d);
                self.w.bank.put(k, ma);
                theirs.push((prog, k, who));
            }
        }
        if self.rng.chance(20) {
            // the program is final, or belongs to somebody else
            let to = *self.rng.pick(&[None, Some(self.w.users[1]), Some(attacker())]);
            let mut ma = self.w.bank.get(&metadata_key());
            let d = Arc::make_mut(&mut ma.data);
            d[12] = to.is_some() as u8;
            if to.is_some() || self.rng.chance(50) {
                d[13..45].copy_from_slice(to.unwrap_or_default().as_ref());
            }
            self.w.bank.put(metadata_key(), ma);
        }
        for pda in [toll_pda(), discount_settings_pda()] {
            if self.rng.chance(15) {
                let l = *self.rng.pick(&[1u64, 1_000, rent(40) - 1, rent(40), 10_000_000]);
                self.w.bank.put(pda, Acc::new(l, vec![], system_program::ID));
            }
        }
        for _ in 0..self.rng.range(3, 14) {
            let signer = *self.rng.pick(&[self.upgrader, self.w.users[0], attacker(), self.disc_auth, self.w.users[1]]);
            let who = if self.rng.chance(50) { self.user() } else { *self.rng.pick(&[self.toll_auth, self.disc_auth, signer, attacker()]) };
            let toll = self.rng.chance(50);
            let mut ix = if toll { create_program_toll(signer, who) } else { create_discount_settings(signer, who) };
            if self.rng.chance(60) {
                let (prog, meta, auth) = *self.rng.pick(&theirs);
                if self.rng.chance(30) {
                    ix.set("amm", prog);
                }
                if self.rng.chance(85) {
                    ix.set("amm_metadata", meta);
                }
                if let (Some(a), true) = (auth, self.rng.chance(80)) {
                    ix.set("program_authority", a);
                }
            } else if self.rng.chance(60) {
                let users: Vec<Pubkey> =
                    self.w.users.iter().copied().chain([self.disc_auth, self.upgrader, self.toll_auth]).collect();
                let mut bank = self.w.bank.clone();
                let what = mutate(&mut ix, &mut bank, &users, &mut self.rng);
                self.w.bank = bank;
                obs.note(|| what.clone());
            } else {
                // as it should be, unless the signer is wrong
                ix.plain = true;
            }
            obs.count("attempts at the settings");
            self.go(ix, obs);
            if self.rng.chance(15) {
                let ix = self.discount_ix();
                self.go(ix, obs);
            }
        }
    }

    pub fn settings(&mut self, obs: &mut Obs) {
        let (u, t, d) = (self.upgrader, self.toll_auth, self.disc_auth);
        self.go(create_program_toll(u, t), obs);
        self.go(create_discount_settings(u, d), obs);
    }

    fn amp(&mut self) -> u64 {
        // almost a constant sum
        if self.rng.chance(12) {
            return match self.rng.below(3) {
                0 => *self.rng.pick(&[1_000_001u64, 10_000_000, 1 << 32, 10_000_000_000, u64::MAX]),
                1 => 1_000_000 + self.rng.log(1_000_000_000),
                _ => self.rng.log(u64::MAX).max(1_000_000),
            };
        }
        match self.rng.below(4) {
            0 => *self.rng.pick(&[1u64, 2, 10, 85, 100]),
            1 => self.rng.range(1, 1000),
            2 => *self.rng.pick(&[1_000u64, 10_000, 100_000, 1_000_000]),
            _ => self.rng.log(1_000_000).max(1),
        }
    }

    pub fn new_pool(&mut self, obs: &mut Obs, n: usize, stable: bool, skew: u64) -> Option<Pubkey> {
        let amp = if stable { self.amp() } else { 0 };
        let admin = self.w.users[self.rng.index(2)];
        let mut mints = self.w.mints.clone();
        self.rng.shuffle(&mut mints);
        mints.truncate(n);
        let mut ix = self.prepare_pool(admin, &mints, amp);
        // a pool which takes over liquidity
        let taken = self.rng.chance(8);
        if taken {
            let lp = ix.key("lp_mint");
            let supply = self.rng.log(self.scale).max(1);
            let k = self.wallet(admin, lp);
            let signer = pool_signer(&ix.key("pool"));
            put_mint(&mut self.w.bank, lp, signer, supply);
            set_amount(&mut self.w.bank, &k, supply);
            let amounts = self.amounts(n, skew);
            let vaults: Vec<Pubkey> = ix.metas.iter().filter(|m| m.role == REM).map(|m| m.key).collect();
            for (i, v) in vaults.iter().enumerate() {
                let from = self.wallet(admin, mints[i]);
                let have = amount(&self.w.bank, &from);
                let a = amounts[i].min(have);
                set_amount(&mut self.w.bank, &from, have - a);
                set_amount(&mut self.w.bank, v, a);
            }
            obs.count("pools created over existing liquidity");
        }
        ix.plain = true;
        let pool = ix.key("pool");
        if !self.go(ix, obs) {
            return None;
        }
        self.pools.push(pool);
        if self.rng.chance(85) {
            let fee = *self.rng.pick(&[0u64, 1, 100, 3_000, 3_333, 10_000, 10_000, 2_500]);
            self.go(set_pool_swap_fee(admin, pool, fee), obs);
        }
        if !taken {
            let a = self.amounts(n, skew);
            let u = self.user();
            self.deposit(pool, u, &a, obs);
        }
        Some(pool)
    }

    fn amounts(&mut self, n: usize, skew: u64) -> Vec<u64> {
        let base = if self.rng.chance(50) {
            self.rng.log(self.scale).max(1)
        } else {
            self.rng.range(self.scale / 1000, self.scale).max(1)
        };
        (0..n)
            .map(|_| {
                let f = self.rng.range(1, skew.max(1));
                let a = match self.rng.below(5) {
                    0 => base / f,
                    1 => base,
                    2 => (base as u128 * f as u128).min(self.scale as u128) as u64,
                    3 => base - self.rng.below(base / 50 + 1),
                    _ => base - self.rng.below(base / 2 + 1),
                };
                a.clamp(1, self.scale.max(1))
            })
            .collect()
    }

    fn pairs(&self, p: &GPool, user: Pubkey) -> Vec<(Pubkey, Pubkey)> {
        p.res.iter().map(|r| (r.vault, self.wallet(user, r.mint))).collect()
    }

    fn deposit_ix(&mut self, pool: Pubkey, user: Pubkey, max: &[u64]) -> Option<Ix> {
        let p = self.w.pools.get(&pool)?.clone();
        let limits: Vec<(Pubkey, u64)> = p.res.iter().zip(max).map(|(r, m)| (r.mint, *m)).collect();
        let mut pairs = self.pairs(&p, user);
        let mut l = limits.clone();
        if self.rng.chance(30) {
            self.rng.shuffle(&mut pairs);
            self.rng.shuffle(&mut l);
        }
        if self.rng.chance(3) {
            // a limit given twice: the later one counts
            let d = *self.rng.pick(&l);
            l.insert(0, (d.0, self.rng.log(u64::MAX)));
        }
        let odd = self.odd_lists(&p, user, &mut l, &mut pairs);
        let mut ix = deposit_liquidity(user, pool, p.mint, self.wallet(user, p.mint), &l, &pairs);
        self.odd_tail(odd, &mut ix);
        Some(ix)
    }

    /// Now and then the lists of limits and accounts aren't those of the
    /// pool: something's missing, given twice or in place of another.
    fn odd_lists(
        &mut self,
        p: &GPool,
        user: Pubkey,
        l: &mut Vec<(Pubkey, u64)>,
        pairs: &mut Vec<(Pubkey, Pubkey)>,
    ) -> bool {
        if !self.odd || !self.rng.chance(8) {
            return false;
        }
        let n = pairs.len();
        for _ in 0..1 + self.rng.chance(30) as usize {
            let (i, j) = (self.rng.index(n), self.rng.index(n));
            let other = *self.rng.pick(&self.w.mints);
            let foreign = match self.pool() {
                Some((_, q)) => self.rng.pick(&q.res).clone(),
                None => p.res[0].clone(),
            };
            let i = i.min(pairs.len().saturating_sub(1));
            let j = j.min(pairs.len().saturating_sub(1));
            if pairs.is_empty() || l.is_empty() {
                break;
            }
            match self.rng.below(12) {
                0 => {
                    pairs.remove(i);
                }
                1 | 2 => pairs[i] = pairs[j],
                3 => {
                    let x = pairs[i];
                    pairs.push(x);
                }
                4 => pairs[i] = (pairs[i].1, pairs[i].0),
                5 => pairs[i].1 = pairs[j].1,
                6 => pairs[i] = (foreign.vault, self.wallet(user, foreign.mint)),
                7 => pairs.push((foreign.vault, self.wallet(user, foreign.mint))),
                8 => {
                    let i = i.min(l.len() - 1);
                    l.remove(i);
                }
                9 => {
                    let i = i.min(l.len() - 1);
                    l[i].0 = other;
                }
                10 => l.push((other, 1)),
                _ => {
                    // one mint left out altogether
                    let v = pairs.remove(i).0;
                    if let Some(r) = p.res.iter().find(|r| r.vault == v) {
                        let m = r.mint;
                        l.retain(|x| x.0 != m);
                    }
                }
            }
        }
        true
    }

    /// ... or an account's missing or surplus in the end.
    fn odd_tail(&mut self, odd: bool, ix: &mut Ix) {
        if !odd {
            return;
        }
        ix.plain = false;
        let is_rem = ix.metas.last().map(|m| m.role == REM).unwrap_or(false);
        match self.rng.below(5) {
            0 if is_rem => {
                ix.metas.pop();
            }
            1 if is_rem => {
                let i = self.rng.index(ix.metas.len());
                let mut m = ix.metas[i].clone();
                m.role = REM;
                ix.metas.push(m);
            }
            _ => (),
        }
    }

    fn deposit(&mut self, pool: Pubkey, user: Pubkey, max: &[u64], obs: &mut Obs) {
        if let Some(ix) = self.deposit_ix(pool, user, max) {
            self.go(ix, obs);
        }
    }

    fn redeem_ix(&mut self, pool: Pubkey, user: Pubkey, burn: u64, min: &[u64]) -> Option<Ix> {
        let p = self.w.pools.get(&pool)?.clone();
        let mut l: Vec<(Pubkey, u64)> = p.res.iter().zip(min).map(|(r, m)| (r.mint, *m)).collect();
        let mut pairs = self.pairs(&p, user);
        if self.rng.chance(30) {
            self.rng.shuffle(&mut pairs);
        }
        let odd = self.odd_lists(&p, user, &mut l, &mut pairs);
        let mut ix = redeem_liquidity(user, pool, p.mint, self.wallet(user, p.mint), burn, &l, &pairs);
        self.odd_tail(odd, &mut ix);
        Some(ix)
    }

    fn holders(&self, p: &GPool) -> Vec<(Pubkey, u64)> {
        self.w
            .users
            .iter()
            .chain([&self.toll_auth, &attacker()])
            .map(|u| (*u, amount(&self.w.bank, &self.wallet(*u, p.mint))))
            .filter(|h| h.1 > 0)
            .collect()
    }

    fn swap_ix(&mut self, pool: Pubkey, p: &GPool, kind: Op) -> Ix {
        let user = self.user();
        let n = p.res.len();
        let i = self.rng.index(n);
        let j = (i + 1 + self.rng.index(n - 1)) % n;
        let x = p.res[i].amount;
        let sell = match kind {
            TinySwap => self.rng.range(1, 400),
            BigSwap => match self.rng.below(4) {
                0 => x,
                1 => x - (x / 1000).min(self.rng.below(5)),
                2 => self.rng.range(x / 2, x),
                // the net amount around the reserve
                _ => {
                    let g = x as u128 * 1_000_000 / 1_000_000u128.saturating_sub(p.fee as u128).max(1);
                    (g.min(u64::MAX as u128) as u64).saturating_sub(self.rng.below(4)).saturating_add(self.rng.below(3))
                }
            },
            _ => match self.rng.below(4) {
                0 => self.rng.log(x.max(1)),
                1 => self.rng.range(1, x / 1000 + 1),
                2 => self.rng.range(1, x / 10 + 1),
                _ => self.rng.range(1, x.max(1)),
            },
        };
        let y = p.res[j].amount;
        let min = if p.amp == 0 && sell < x && self.rng.chance(40) {
            // around the exact payout
            let o = crate::num::const_out(x, y, sell);
            match self.rng.below(4) {
                0 => o,
                1 => o + 1,
                2 => o.saturating_sub(self.rng.below(o / 50 + 2)),
                _ => 1,
            }
        } else {
            match self.rng.below(6) {
                0 => 1,
                1 => self.rng.log(y.max(1)),
                _ => 0,
            }
        };
        let a = SwapAccs {
            user,
            pool,
            sell_wallet: self.wallet(user, p.res[i].mint),
            buy_wallet: self.wallet(user, p.res[j].mint),
            sell_vault: p.res[i].vault,
            buy_vault: p.res[j].vault,
            lp_mint: p.mint,
            toll_wallet: p.toll_wallet,
        };
        swap(&a, sell, min)
    }

    fn discount_ix(&mut self) -> Ix {
        let user = self.user();
        let amount = match self.rng.below(8) {
            0 => 0,
            1 => MILLION,
            2 => MILLION + self.rng.below(3),
            3 => 500_000,
            4 => 1 + self.rng.log(100),
            5 => MILLION - 1 - self.rng.log(100),
            _ => self.rng.below(MILLION + 1),
        };
        let now = self.w.bank.slot;
        let until = match self.rng.below(8) {
            0 => now,
            1 => now + 1,
            2 => now.saturating_sub(1),
            3 => *self.rng.pick(&[u64::MAX, now + (1 << 32), now + (1 << 16)]),
            _ => now + 1 + self.rng.below(20),
        };
        let w = self.rng.chance(85);
        put_discount(self.disc_auth, w, user, amount, until)
    }

    pub fn op(&mut self, op: Op, obs: &mut Obs) {
        self.odd = !matches!(op, Probe | Pool);
        self.op_(op, obs);
        self.odd = false;
    }

    fn op_(&mut self, op: Op, obs: &mut Obs) {
        match op {
            Settings => {
                let signer = *self.rng.pick(&[self.upgrader, self.w.users[0], attacker(), self.disc_auth]);
                let who = self.user();
                let ix = if self.rng.chance(50) {
                    create_program_toll(signer, who)
                } else {
                    create_discount_settings(signer, who)
                };
                self.go(ix, obs);
                return;
            }
            Pool => {
                self.odd_pool(obs);
                return;
            }
            Discount => {
                let ix = self.discount_ix();
                self.go(ix, obs);
                return;
            }
            Slots => {
                let d = match self.rng.below(4) {
                    0 => 1,
                    1 => self.rng.below(30),
                    _ => {
                        // to the end of a discount
                        let ends: Vec<u64> = self.w.discounts.values().map(|d| d.1).collect();
                        if ends.is_empty() {
                            1
                        } else {
                            let e = *self.rng.pick(&ends);
                            e.saturating_sub(self.w.bank.slot).saturating_add(self.rng.below(3)).min(100)
                        }
                    }
                };
                self.w.bank.slot += d;
                return;
            }
            Prefund => {
                let u = self.user();
                let k = discount_pda(&u);
                if !self.w.bank.accs.contains_key(&k) {
                    let l = *self.rng.pick(&[1u64, 1_000, rent(24) - 1, rent(24), rent(24) + 1, 10_000_000]);
                    self.w.bank.put(k, Acc::new(l, vec![], system_program::ID));
                    obs.count("discount addresses funded in advance");
                }
                return;
            }
            _ => (),
        }
        let (pool, p) = match self.pool() {
            Some(x) => x,
            None => return,
        };
        match op {
            Swap | TinySwap | BigSwap => {
                let ix = self.swap_ix(pool, &p, op);
                self.go(ix, obs);
            }
            Drain => {
                // many trades in one direction
                let user = self.user();
                let n = p.res.len();
                let i = self.rng.index(n);
                let j = (i + 1 + self.rng.index(n - 1)) % n;
                for _ in 0..self.rng.range(2, 12) {
                    let g = match self.w.pools.get(&pool) {
                        Some(g) => g.clone(),
                        None => return,
                    };
                    let x = g.res[i].amount;
                    let a = SwapAccs {
                        user,
                        pool,
                        sell_wallet: self.wallet(user, g.res[i].mint),
                        buy_wallet: self.wallet(user, g.res[j].mint),
                        sell_vault: g.res[i].vault,
                        buy_vault: g.res[j].vault,
                        lp_mint: g.mint,
                        toll_wallet: g.toll_wallet,
                    };
                    let s = x.saturating_sub(1 + self.rng.below(x / 10 + 1)).max(1);
                    if !self.go(swap(&a, s, 0), obs) {
                        break;
                    }
                }
            }
            Deposit => {
                let u = self.user();
                let m = self.amounts(p.res.len(), 4);
                self.deposit(pool, u, &m, obs);
            }
            TightDeposit => {
                let u = self.user();
                let (a, b) = (self.rng.range(1, 1000) as u128, self.rng.range(1, 1000) as u128);
                let m: Vec<u64> = p
                    .res
                    .iter()
                    .map(|r| {
                        let v = (r.amount as u128 * a / b).min(u64::MAX as u128 / 16) as u64;
                        v.saturating_add(self.rng.below(3)).saturating_sub(self.rng.below(2)).max(1)
                    })
                    .collect();
                self.deposit(pool, u, &m, obs);
            }
            SkewedDeposit => {
                let u = self.user();
                let m: Vec<u64> = p
                    .res
                    .iter()
                    .map(|r| match self.rng.below(4) {
                        0 => 1 + self.rng.below(3),
                        1 => self.rng.log(r.amount.max(2)).max(1),
                        2 => r.amount.min(u64::MAX / 32).max(1),
                        _ => self.rng.log(u64::MAX / 16).max(1),
                    })
                    .collect();
                self.deposit(pool, u, &m, obs);
            }
            Redeem | RedeemAll => {
                let h = self.holders(&p);
                if h.is_empty() {
                    return;
                }
                let (u, have) = *self.rng.pick(&h);
                if u == self.toll_auth {
                    self.toll_wallets(&p);
                }
                let supply = mint_supply(&self.w.bank.get(&p.mint)).max(1);
                let burn = if op == RedeemAll {
                    have
                } else {
                    match self.rng.below(5) {
                        0 => self.rng.log(have),
                        1 => have,
                        2 => have.saturating_add(self.rng.below(2)),
                        _ => self.rng.range(0, have),
                    }
                };
                let min: Vec<u64> = p
                    .res
                    .iter()
                    .map(|r| {
                        let fair = (r.amount as u128 * burn as u128 / supply as u128).min(u64::MAX as u128) as u64;
                        match self.rng.below(10) {
                            0 => fair,
                            1 => fair.saturating_add(1),
                            2 => fair.saturating_sub(self.rng.below(4)),
                            _ => 0,
                        }
                    })
                    .collect();
                if let Some(ix) = self.redeem_ix(pool, u, burn, &min) {
                    self.go(ix, obs);
                }
            }
            Fee => {
                let who = if self.rng.chance(85) { p.admin } else { self.user() };
                let f = *self.rng.pick(&[0u64, 1, 10, 3_000, 9_999, 10_000, 10_001, 333_333, u64::MAX, 7_777]);
                self.go(set_pool_swap_fee(who, pool, f), obs);
            }
            Donate => {
                let u = self.user();
                let r = self.rng.pick(&p.res).clone();
                let from = self.wallet(u, r.mint);
                let have = amount(&self.w.bank, &from);
                let a = self.rng.log(have.min(self.scale));
                if let Some(v) = amount(&self.w.bank, &r.vault).checked_add(a) {
                    set_amount(&mut self.w.bank, &from, have - a);
                    set_amount(&mut self.w.bank, &r.vault, v);
                    self.w.gift(&r.vault, a as i128);
                    obs.count("donations");
                }
            }
            Move => {
                let h = self.holders(&p);
                if h.is_empty() {
                    return;
                }
                let (u, have) = *self.rng.pick(&h);
                let to = self.user();
                if to != u {
                    let a = self.rng.range(0, have);
                    let (f, t) = (self.wallet(u, p.mint), self.wallet(to, p.mint));
                    let b = amount(&self.w.bank, &t);
                    set_amount(&mut self.w.bank, &f, have - a);
                    set_amount(&mut self.w.bank, &t, b + a);
                }
            }
            Burn => {
                let h = self.holders(&p);
                if h.is_empty() {
                    return;
                }
                let (u, have) = *self.rng.pick(&h);
                let a = if self.rng.chance(20) { have } else { self.rng.log(have) };
                let f = self.wallet(u, p.mint);
                set_amount(&mut self.w.bank, &f, have - a);
                let mut m = self.w.bank.get(&p.mint);
                let d = Arc::make_mut(&mut m.data);
                let s = u64_at(d, 36) - a;
                d[36..44].copy_from_slice(&s.to_le_bytes());
                self.w.bank.put(p.mint, m);
                obs.count("LP tokens burnt outside of the pool");
            }
            Delegate => {
                // somebody may spend a bit of a wallet
                let (u, d) = (self.user(), self.user());
                if u == d {
                    return;
                }
                let r = self.rng.pick(&p.res).clone();
                let m = if self.rng.chance(50) { r.mint } else { p.mint };
                let k = self.wallet(u, m);
                let mut a = self.w.bank.get(&k);
                let n = self.rng.log(self.scale);
                let data = Arc::make_mut(&mut a.data);
                data[72] = 1;
                data[76..108].copy_from_slice(d.as_ref());
                data[121..129].copy_from_slice(&n.to_le_bytes());
                self.w.bank.put(k, a);
            }
            Self_ => {
                // wallets which are vaults
                let mut ix = self.swap_ix(pool, &p, Swap);
                ix.plain = false;
                let v = match self.pool() {
                    Some((_, q)) => self.rng.pick(&q.res).vault,
                    None => return,
                };
                if self.rng.chance(50) {
                    let b = ix.key("buy_vault");
                    ix.set("buy_wallet", if self.rng.chance(50) { b } else { v });
                } else {
                    ix.set("sell_wallet", v);
                }
                self.go(ix, obs);
            }
            Hostile => {
                let ix = match self.rng.below(12) {
                    0..=4 => Some(self.swap_ix(pool, &p, Swap)),
                    5 | 6 => {
                        let u = self.user();
                        let m: Vec<u64> = p.res.iter().map(|r| (r.amount / 7).max(1)).collect();
                        self.deposit_ix(pool, u, &m)
                    }
                    7 | 8 => {
                        let h = self.holders(&p);
                        if h.is_empty() {
                            None
                        } else {
                            let (u, have) = *self.rng.pick(&h);
                            if u == self.toll_auth {
                                self.toll_wallets(&p);
                            }
                            let b = self.rng.range(1, have);
                            let z = vec![0; p.res.len()];
                            self.redeem_ix(pool, u, b, &z)
                        }
                    }
                    9 => Some(set_pool_swap_fee(p.admin, pool, self.rng.clone().below(10_000))),
                    10 => Some(self.discount_ix()),
                    _ => {
                        let who = self.user();
                        if self.rng.chance(50) {
                            Some(create_program_toll(self.upgrader, who))
                        } else {
                            Some(create_discount_settings(self.upgrader, who))
                        }
                    }
                };
                if let Some(mut ix) = ix {
                    let users: Vec<Pubkey> =
                        self.w.users.iter().copied().chain([self.disc_auth, self.upgrader, self.toll_auth]).collect();
                    let mut bank = self.w.bank.clone();
                    let what = mutate(&mut ix, &mut bank, &users, &mut self.rng);
                    self.w.bank = bank;
                    obs.note(|| what.clone());
                    obs.count(&format!("hostile: {}", ix.name));
                    self.go(ix, obs);
                }
            }
            Probe => self.probe(pool, obs),
            _ => unreachable!(),
        }
    }

    /// Wallets the toll authority redeems to.
    fn toll_wallets(&mut self, p: &GPool) {
        for r in &p.res {
            if !self.w.wallets.contains_key(&(self.toll_auth, r.mint)) {
                let k = self.rng.key();
                put_token(&mut self.w.bank, k, &r.mint, &self.toll_auth, 0);
                self.w.wallets.insert((self.toll_auth, r.mint), k);
            }
        }
    }

    /// A10: on a copy of the world every holder redeems, the last one gets
    /// everything and the pool starts again.
    fn probe(&mut self, pool: Pubkey, obs: &mut Obs) {
        let p = match self.w.pools.get(&pool) {
            Some(p) => p.clone(),
            None => return,
        };
        let mut h = self.holders(&p);
        if h.is_empty() || self.done(obs) {
            return;
        }
        self.toll_wallets(&p);
        let saved = self.w.clone();
        let step = obs.step;
        let total: u64 = h.iter().map(|x| x.1).sum();
        let supply = mint_supply(&self.w.bank.get(&p.mint));
        let zero = vec![0; p.res.len()];
        obs.note(|| format!("probe: {} holders redeem", h.len()));
        obs.refused_imbalanced = false;
        // some redeem a part of theirs
        for _ in 0..self.rng.below(3) {
            let i = self.rng.index(h.len());
            let b = if self.rng.chance(50) { self.rng.log(h[i].1) } else { self.rng.range(1, h[i].1) };
            if b > 0 && h[i].1 > 0 {
                if let Some(ix) = self.redeem_ix(pool, h[i].0, b, &zero) {
                    if self.w.step(&ix, obs) {
                        h[i].1 -= b;
                    }
                }
            }
        }
        self.rng.shuffle(&mut h);
        for (u, b) in h {
            if b > 0 {
                if let Some(ix) = self.redeem_ix(pool, u, b, &zero) {
                    self.w.step(&ix, obs);
                }
            }
        }
        obs.count("probes of complete redemption");
        if total == supply {
            let left = mint_supply(&self.w.bank.get(&p.mint));
            let res: Vec<u64> = self.w.pools.get(&pool).map(|p| p.res.iter().map(|r| r.amount).collect()).unwrap_or_default();
            obs.eval("A10", hash64(&[key64(&pool), supply, step as u64]), || {
                format!("all holders of {} LP redeemed, {} LP and reserves {:?} left", supply, left, res)
            });
            if left != 0 || res.iter().any(|r| *r != 0) {
                let known = obs.refused_imbalanced.then(|| "redeem-extreme-imbalance".to_string());
                obs.viol_known(&["A10"], known, format!("after everybody redeemed {} LP are left and reserves {:?}", left, res));
            } else {
                // by the first who holds some of every token
                let rich = self.w.users.clone().into_iter().find_map(|u| {
                    let have: Vec<u64> =
                        p.res.iter().map(|r| amount(&self.w.bank, &self.wallet(u, r.mint))).collect();
                    have.iter().all(|h| *h > 0).then_some((u, have))
                });
                let a = self.amounts(p.res.len(), 1);
                let (u, a) = match rich {
                    Some((u, have)) => {
                        (u, a.iter().zip(have).map(|(a, h)| (*a).min(h).max(1)).collect::<Vec<u64>>())
                    }
                    None => (self.w.users[0], vec![]),
                };
                let again = if a.is_empty() { None } else { self.deposit_ix(pool, u, &a) };
                if let Some(ix) = again {
                    let ok = self.w.step(&ix, obs);
                    if !ok {
                        obs.viol(&["A10"], format!("an emptied pool cannot be used again: deposit of {:?} fails", a));
                    }
                }
            }
        }
        self.w = saved;
        obs.step = step;
    }

    /// A pool with something wrong about it, or a good one.
    fn odd_pool(&mut self, obs: &mut Obs) {
        let n = match self.rng.below(12) {
            0 => 0,
            1 => 1,
            2 => 5,
            3 => 6,
            _ => self.rng.range(2, 4) as usize,
        };
        let admin = self.user();
        let mut mints = self.w.mints.clone();
        self.rng.shuffle(&mut mints);
        mints.truncate(n);
        let amp = if self.rng.chance(50) { 0 } else { self.amp() };
        let mut ix = self.prepare_pool(admin, &mints, amp);
        ix.plain = true;
        let vaults: Vec<usize> = (0..ix.metas.len()).filter(|i| ix.metas[*i].role == REM).collect();
        let lp = ix.key("lp_mint");
        let signer = pool_signer(&ix.key("pool"));
        let b = &mut self.w.bank;
        let pick = if vaults.is_empty() { None } else { Some(ix.metas[vaults[self.rng.index(vaults.len())]].key) };
        let edit = |b: &mut Bank, k: Pubkey, f: &mut dyn FnMut(&mut Vec<u8>)| {
            let mut a = b.get(&k);
            f(Arc::make_mut(&mut a.data));
            b.put(k, a);
        };
        let other = self.w.users[self.rng.index(USERS)];
        let mut what = "nothing odd";
        for _ in 0..*self.rng.pick(&[0u64, 1, 1, 1, 1, 1, 2]) {
            let v = pick;
            match (self.rng.below(20), v) {
                (0, Some(v)) => {
                    what = "vault with a delegate";
                    edit(b, v, &mut |d| {
                        d[72] = 1;
                        d[76..108].copy_from_slice(other.as_ref());
                        let n: u64 = *self.rng.pick(&[0, 1, 1000, u64::MAX]);
                        d[121..129].copy_from_slice(&n.to_le_bytes());
                    });
                    if self.rng.chance(30) {
                        // and tokens in the vault, as in a taken over pool
                        set_amount(b, &v, *self.rng.pick(&[1, 999, 1000, 1_000_000]));
                        put_mint(b, lp, signer, 10_000);
                    }
                }
                (1, Some(v)) => {
                    what = "vault with a close authority";
                    edit(b, v, &mut |d| {
                        d[129] = 1;
                        d[133..165].copy_from_slice(other.as_ref());
                    });
                }
                (2, Some(v)) => {
                    what = "frozen vault";
                    edit(b, v, &mut |d| d[108] = 2);
                }
                (3, Some(v)) => {
                    what = "vault of somebody else";
                    edit(b, v, &mut |d| d[32..64].copy_from_slice(other.as_ref()));
                }
                (4, Some(v)) => {
                    what = "vault with tokens";
                    set_amount(b, &v, 1);
                }
                (5, _) => {
                    what = "LP tokens with supply";
                    put_mint(b, lp, signer, 5);
                }
                (6, _) => {
                    what = "LP mint of somebody else";
                    edit(b, lp, &mut |d| d[4..36].copy_from_slice(other.as_ref()));
                }
                (7, _) => {
                    what = "LP mint without authority";
                    edit(b, lp, &mut |d| d[0] = 0);
                }
                (8, _) => {
                    what = "LP mint with freeze authority";
                    let by = if self.rng.chance(50) { signer } else { other };
                    edit(b, lp, &mut |d| {
                        d[46] = 1;
                        d[50..82].copy_from_slice(by.as_ref());
                    });
                }
                (9, _) => {
                    what = "toll wallet of somebody else";
                    let k = ix.key("program_toll_wallet");
                    edit(b, k, &mut |d| d[32..64].copy_from_slice(other.as_ref()));
                }
                (10, _) => {
                    what = "toll wallet of another mint";
                    let k = ix.key("program_toll_wallet");
                    let m = self.w.mints[0];
                    edit(b, k, &mut |d| d[..32].copy_from_slice(m.as_ref()));
                }
                (11, Some(v)) if vaults.len() >= 2 => {
                    what = "two vaults of one mint";
                    let k = ix.metas[vaults[0]].key;
                    let m = tok_mint(&b.get(&k));
                    let w = ix.metas[vaults[1]].key;
                    edit(b, w, &mut |d| d[..32].copy_from_slice(m.as_ref()));
                    let _ = v;
                }
                (12, Some(_)) if vaults.len() >= 2 => {
                    what = "one vault twice";
                    let k = ix.metas[vaults[0]].key;
                    ix.metas[vaults[vaults.len() - 1]].key = k;
                }
                (13, _) => {
                    what = "pool does not sign";
                    ix.metas.iter_mut().find(|m| m.role == "pool").unwrap().signer = false;
                }
                (14, _) => {
                    what = "admin does not sign";
                    ix.metas.iter_mut().find(|m| m.role == "admin").unwrap().signer = false;
                }
                (15, _) => {
                    what = "pool signer of another pool";
                    let k = pool_signer(&other);
                    ix.set("pool_signer", k);
                }
                (16, _) => {
                    what = "another toll";
                    let k = self.rng.key();
                    let mut d = disc("ProgramToll").to_vec();
                    d.extend_from_slice(other.as_ref());
                    let owner = *self.rng.pick(&[amm::ID, other, system_program::ID]);
                    b.put(k, Acc::new(rent(40), d, owner));
                    ix.set("program_toll", k);
                    let tw = ix.key("program_toll_wallet");
                    edit(b, tw, &mut |d| d[32..64].copy_from_slice(other.as_ref()));
                }
                (17, Some(v)) => {
                    what = "vault of another owner program";
                    let mut a = b.get(&v);
                    a.owner = fake_program();
                    b.put(v, a);
                }
                (18, _) => {
                    what = "every vault with tokens and LP supply";
                    put_mint(b, lp, signer, 10_000);
                    let k = self.w.wallets[&(admin, lp)];
                    set_amount(b, &k, 10_000);
                    for i in &vaults {
                        set_amount(b, &ix.metas[*i].key, 1_000 + *i as u64);
                    }
                }
                (19, Some(_)) => {
                    // the pool's address already has lamports
                    what = "funded pool account";
                    let k = ix.key("pool");
                    let l = *self.rng.pick(&[1u64, 1_000_000, 100_000_000]);
                    b.put(k, Acc::new(l, vec![], system_program::ID));
                }
                _ => (),
            }
        }
        obs.count(&format!("odd pool: {}", what));
        obs.note(|| what.to_string());
        let pool = ix.key("pool");
        if self.go(ix, obs) {
            self.pools.push(pool);
            if self.rng.chance(50) {
                let u = self.user();
                let a = self.amounts(n, 3);
                self.deposit(pool, u, &a, obs);
            }
        }
    }

    pub fn play(&mut self, ops: &[(u64, Op)], steps: usize, obs: &mut Obs) {
        for k in 0..steps {
            if self.done(obs) {
                return;
            }
            let op = *self.rng.weighted(ops);
            self.op(op, obs);
            if self.rng.chance(15) {
                self.w.bank.slot += self.rng.below(3);
            }
            if k + 1 == steps {
                for p in self.pools.clone() {
                    self.probe(p, obs);
                }
            }
        }
    }
}

pub fn run(profile: &str, seed: u64, hist: u64, limit: usize, obs: &mut Obs) {
    let tag = profile.bytes().fold(11u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64));
    let rng = Rng::mix(&[seed, tag, hist]);
    let mut g = Gen::new(rng, 6);
    g.step_limit = limit;
    let big = u64::MAX / 64;
    let scales = [1_000u64, 1_000_000, 1_000_000_000, 1_000_000_000_000, 1_000_000_000_000_000, big];
    g.scale = *g.rng.pick(&scales);
    if profile == "settings" {
        g.claim_settings(obs);
        g.settings(obs);
        g.new_pool(obs, 2, false, 2);
        g.play(DISCOUNT, 25, obs);
        return;
    }
    g.settings(obs);
    match profile {
        "constprod" | "trade" | "liquidity" => {
            let n = *g.rng.pick(&[2usize, 2, 2, 3, 4]);
            let skew = *g.rng.pick(&[1u64, 10, 1_000_000]);
            g.new_pool(obs, n, false, skew);
            let ops = match profile {
                "constprod" => MIX,
                "trade" => TRADE,
                _ => LIQUIDITY,
            };
            g.play(ops, 60, obs);
        }
        "stable" => {
            let n = g.rng.range(2, 4) as usize;
            let skew = *g.rng.pick(&[1u64, 1, 3, 100]);
            g.new_pool(obs, n, true, skew);
            g.play(MIX, 50, obs);
        }
        "stableliq" => {
            let n = g.rng.range(2, 4) as usize;
            let skew = *g.rng.pick(&[1u64, 3, 1_000]);
            g.new_pool(obs, n, true, skew);
            g.play(LIQUIDITY, 50, obs);
        }
        "stableedge" => {
            let n = g.rng.range(2, 4) as usize;
            let skew = *g.rng.pick(&[10u64, 10_000, 1_000_000_000]);
            g.new_pool(obs, n, true, skew);
            g.play(TRADE, 50, obs);
        }
        "pools" => {
            for _ in 0..3 {
                let n = g.rng.range(2, 4) as usize;
                let s = g.rng.chance(40);
                g.new_pool(obs, n, s, 5);
            }
            g.play(MIX, 70, obs);
        }
        "hostileamm" => {
            for _ in 0..2 {
                let n = g.rng.range(2, 3) as usize;
                let s = g.rng.chance(30);
                g.new_pool(obs, n, s, 2);
            }
            g.play(HOSTILE, 120, obs);
        }
        "create" => g.play(CREATE, 25, obs),
        "discount" => {
            g.new_pool(obs, 2, false, 2);
            let s = g.rng.chance(30);
            g.new_pool(obs, 2, s, 2);
            g.play(DISCOUNT, 80, obs);
        }
        _ => panic!("unknown profile {}", profile),
    }
}
