//! A farm and a pool to play scenarios in, on the real programs.
#![allow(dead_code)]
pub use crate::abi::*;
pub use crate::bank::*;
pub use solana_program::pubkey::Pubkey;
use std::collections::BTreeMap;

/// A key for a name.
pub fn k(name: &str) -> Pubkey {
    if name == "wsol" {
        return native_mint();
    }
    solana_program::pubkey::Pubkey::new_from_array(
        solana_program::hash::hash(name.as_bytes()).to_bytes(),
    )
}

pub fn same<T: PartialEq + std::fmt::Debug>(what: &str, got: T, want: T) {
    if got != want {
        println!("FAILED: {}: got {:?}, want {:?}", what, got, want);
        std::process::exit(1);
    }
    println!("ok: {} = {:?}", what, got);
}

pub fn check(what: &str, ok: bool) {
    same(what, ok, true);
}

pub struct W {
    pub b: Bank,
}

impl W {
    pub fn new() -> Self {
        let mut b = Bank::new();
        put_amm(&mut b, Some(k("upgrader")));
        let mut w = W { b };
        w.b.slot = 10;
        for n in ["upgrader", "admin", "admin2", "alice", "bob", "mallory"] {
            w.lamports(k(n));
        }
        w
    }
    pub fn lamports(&mut self, key: Pubkey) {
        let mut a = Acc::empty();
        a.lamports = LAMPORTS;
        self.b.put(key, a);
    }
    pub fn slot(&mut self, slot: u64) {
        self.b.slot = slot;
    }
    /// Runs an instruction which has to succeed.
    pub fn ok(&mut self, ix: Ix) {
        let r = self.b.run(&ix);
        if !r.ok {
            println!("FAILED: {} is refused: {}", ix.name, r.err);
            for l in &r.logs {
                println!("  {}", l);
            }
            std::process::exit(1);
        }
    }
    /// Runs an instruction and says whether it succeeded.
    pub fn run(&mut self, ix: Ix) -> bool {
        self.b.run(&ix).ok
    }
    /// Runs an instruction which has to fail.
    pub fn refused(&mut self, what: &str, ix: Ix) {
        let r = self.b.run(&ix);
        check(&format!("{} is refused", what), !r.ok);
    }
    pub fn mint(&mut self, name: &str) -> Pubkey {
        put_mint(&mut self.b, k(name), k("minter"), 1 << 60);
        k(name)
    }
    /// A token account of a user, named "user/mint".
    pub fn wallet(&mut self, user: &str, mint: &str, amount: u64) -> Pubkey {
        let key = wallet(user, mint);
        put_token(&mut self.b, key, &k(mint), &k(user), amount);
        key
    }
    pub fn amount(&self, key: Pubkey) -> u64 {
        amount(&self.b, &key)
    }

    // ------------------------------------------------------------ farming

    /// A farm of "admin" over mint `stake`, with the given harvest mints and
    /// snapshot window.
    pub fn farm(&mut self, name: &str, stake: &str, harvests: &[&str], window: u64) -> Pubkey {
        let farm = k(name);
        let admin = k("admin");
        self.b.put(
            farm,
            Acc::new(rent(FARM_LEN), vec![0; FARM_LEN], farming::ID),
        );
        self.ok(create_farm(admin, farm, k(stake)));
        if window != 0 {
            self.ok(set_min_snapshot_window(admin, farm, window));
        }
        for h in harvests {
            self.ok(add_harvest(admin, farm, k(h)));
        }
        farm
    }
    pub fn farmer(&mut self, user: &str, farm: Pubkey) -> Pubkey {
        self.ok(create_farmer(k(user), k(user), farm));
        farmer_pda(&farm, &k(user))
    }
    pub fn stake(&mut self, user: &str, farm: Pubkey, stake: &str, n: u64) {
        self.ok(start_farming(
            k(user),
            farmer_pda(&farm, &k(user)),
            wallet(user, stake),
            farm,
            n,
        ));
    }
    pub fn snap(&mut self, farm: Pubkey, slot: u64) {
        self.b.slot = slot;
        self.ok(take_snapshot(farm));
    }
    pub fn period(&mut self, farm: Pubkey, mint: &str, start: u64, len: u64, tps: u64) -> Ix {
        new_harvest_period(k("admin"), farm, wallet("admin", mint), k(mint), start, len, tps)
    }
    pub fn update(&mut self, user: &str, farm: Pubkey) {
        self.ok(update_eligible_harvest(farm, farmer_pda(&farm, &k(user)), None));
    }
    pub fn farmer_of(&self, user: &str, farm: Pubkey) -> FarmerAcc {
        FarmerAcc::parse(&self.b.get(&farmer_pda(&farm, &k(user))).data)
    }
    pub fn harvest(&self, user: &str, farm: Pubkey, mint: &str) -> u64 {
        self.farmer_of(user, farm).tokens(&k(mint))
    }
    pub fn farm_of(&self, farm: Pubkey) -> FarmAcc {
        FarmAcc::parse(&self.b.get(&farm).data)
    }

    // ---------------------------------------------------------------- amm

    pub fn toll(&mut self) {
        self.ok(create_program_toll(k("upgrader"), k("toll")));
        self.ok(create_discount_settings(k("upgrader"), k("discounter")));
        self.lamports(k("discounter"));
    }
    /// The accounts of a pool; LP mint "<name>-lp".
    pub fn prepare_pool(&mut self, name: &str, mints: &[&str], amp: u64) -> Ix {
        let pool = k(name);
        let lp = format!("{}-lp", name);
        let signer = pool_signer(&pool);
        put_mint(&mut self.b, k(&lp), signer, 0);
        self.wallet("toll", &lp, 0);
        for u in ["alice", "bob", "mallory"] {
            self.wallet(u, &lp, 0);
        }
        let mut vaults = vec![];
        for m in mints {
            let v = vault(name, m);
            put_token(&mut self.b, v, &k(m), &signer, 0);
            vaults.push(v);
        }
        create_pool(k("admin"), pool, wallet("toll", &lp), k(&lp), amp, &vaults)
    }
    pub fn pool(&mut self, name: &str, mints: &[&str], amp: u64) -> Pubkey {
        let ix = self.prepare_pool(name, mints, amp);
        self.ok(ix);
        k(name)
    }
    pub fn pool_of(&self, name: &str) -> PoolAcc {
        PoolAcc::parse(&self.b.get(&k(name)).data).unwrap()
    }
    pub fn reserves(&self, name: &str) -> Vec<u64> {
        self.pool_of(name).reserves().iter().map(|r| r.tokens).collect()
    }
    pub fn supply(&self, name: &str) -> u64 {
        mint_supply(&self.b.get(&k(&format!("{}-lp", name))))
    }
    pub fn lp(&self, user: &str, pool: &str) -> u64 {
        self.amount(wallet(user, &format!("{}-lp", pool)))
    }
}

pub fn wallet(user: &str, mint: &str) -> Pubkey {
    k(&format!("{}/{}", user, mint))
}
pub fn vault(pool: &str, mint: &str) -> Pubkey {
    k(&format!("{}:{}", pool, mint))
}

fn pairs(user: &str, pool: &str, mints: &[(&str, u64)]) -> Vec<(Pubkey, Pubkey)> {
    mints.iter().map(|(m, _)| (vault(pool, m), wallet(user, m))).collect()
}
fn limits(mints: &[(&str, u64)]) -> Vec<(Pubkey, u64)> {
    mints.iter().map(|(m, n)| (k(m), *n)).collect()
}

pub fn deposit(user: &str, pool: &str, max: &[(&str, u64)]) -> Ix {
    let lp = format!("{}-lp", pool);
    deposit_liquidity(
        k(user), k(pool), k(&lp), wallet(user, &lp), &limits(max),
        &pairs(user, pool, max),
    )
}
pub fn redeem(user: &str, pool: &str, burn: u64, min: &[(&str, u64)]) -> Ix {
    let lp = format!("{}-lp", pool);
    redeem_liquidity(
        k(user), k(pool), k(&lp), wallet(user, &lp), burn, &limits(min),
        &pairs(user, pool, min),
    )
}
pub fn swap_accs(user: &str, pool: &str, sell: &str, buy: &str) -> SwapAccs {
    let lp = format!("{}-lp", pool);
    SwapAccs {
        user: k(user),
        pool: k(pool),
        sell_wallet: wallet(user, sell),
        buy_wallet: wallet(user, buy),
        sell_vault: vault(pool, sell),
        buy_vault: vault(pool, buy),
        lp_mint: k(&lp),
        toll_wallet: wallet("toll", &lp),
    }
}
pub fn do_swap(user: &str, pool: &str, sell: &str, buy: &str, n: u64, min: u64) -> Ix {
    swap(&swap_accs(user, pool, sell, buy), n, min)
}

pub type Map = BTreeMap<Pubkey, u64>;
