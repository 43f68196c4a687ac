//! The public interface of the two programs and of the accounts they own, as
//! a client sees it: discriminators, account orders, PDA seeds, layouts.

use crate::bank::*;
use solana_program::{
    hash::hash, pubkey::Pubkey, rent::Rent, system_program, sysvar,
};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap};
use std::sync::Arc;

pub const MAX_MINTS: usize = 10;
pub const PERIODS: usize = 10;
pub const RING: usize = 1000;
pub const FARM_LEN: usize = 19160;
pub const FARMER_LEN: usize = 504;
pub const DEFAULT_WINDOW: u64 = 7200;

pub fn sighash(name: &str) -> [u8; 8] {
    let h = hash(format!("global:{}", name).as_bytes());
    let mut b = [0; 8];
    b.copy_from_slice(&h.as_ref()[..8]);
    b
}
pub fn acchash(name: &str) -> [u8; 8] {
    let h = hash(format!("account:{}", name).as_bytes());
    let mut b = [0; 8];
    b.copy_from_slice(&h.as_ref()[..8]);
    b
}

thread_local! {
    static DISC: RefCell<HashMap<&'static str, [u8; 8]>> = RefCell::new(HashMap::new());
    static PDAS: RefCell<HashMap<Vec<u8>, Pubkey>> = RefCell::new(HashMap::new());
}

pub fn disc(account: &'static str) -> [u8; 8] {
    DISC.with(|d| *d.borrow_mut().entry(account).or_insert_with(|| acchash(account)))
}

pub fn pda(program: &Pubkey, seeds: &[&[u8]]) -> Pubkey {
    let mut k = program.to_bytes().to_vec();
    for s in seeds {
        k.push(s.len() as u8);
        k.extend_from_slice(s);
    }
    PDAS.with(|p| {
        let mut p = p.borrow_mut();
        if p.len() > 20_000 {
            p.clear();
        }
        *p.entry(k)
            .or_insert_with(|| Pubkey::find_program_address(seeds, program).0)
    })
}

pub fn farm_signer(farm: &Pubkey) -> Pubkey {
    pda(&farming::ID, &[b"signer", farm.as_ref()])
}
pub fn stake_vault(farm: &Pubkey) -> Pubkey {
    pda(&farming::ID, &[b"stake_vault", farm.as_ref()])
}
pub fn harvest_vault(farm: &Pubkey, mint: &Pubkey) -> Pubkey {
    pda(&farming::ID, &[b"harvest_vault", farm.as_ref(), mint.as_ref()])
}
pub fn farmer_pda(farm: &Pubkey, authority: &Pubkey) -> Pubkey {
    pda(&farming::ID, &[b"farmer", farm.as_ref(), authority.as_ref()])
}
pub fn whitelist_pda(source: &Pubkey, target: &Pubkey) -> Pubkey {
    pda(
        &farming::ID,
        &[b"whitelist_compounding", source.as_ref(), target.as_ref()],
    )
}
pub fn pool_signer(pool: &Pubkey) -> Pubkey {
    pda(&amm::ID, &[b"signer", pool.as_ref()])
}
pub fn toll_pda() -> Pubkey {
    pda(&amm::ID, &[b"toll"])
}
pub fn discount_settings_pda() -> Pubkey {
    pda(&amm::ID, &[b"discount_settings"])
}
pub fn discount_pda(user: &Pubkey) -> Pubkey {
    pda(&amm::ID, &[b"discount", user.as_ref()])
}

pub fn rent(len: usize) -> u64 {
    Rent::default().minimum_balance(len)
}

// ---------------------------------------------------------------- reading

pub fn u64_at(d: &[u8], o: usize) -> u64 {
    let mut b = [0; 8];
    b.copy_from_slice(&d[o..o + 8]);
    u64::from_le_bytes(b)
}
pub fn key_at(d: &[u8], o: usize) -> Pubkey {
    Pubkey::new(&d[o..o + 32])
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub struct Period {
    pub tps: u64,
    pub start: u64,
    pub end: u64,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct HarvestAcc {
    pub mint: Pubkey,
    pub vault: Pubkey,
    pub periods: Vec<Period>,
}

/// Header of a farm account, ie. all but the snapshots.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FarmAcc {
    pub admin: Pubkey,
    pub stake_mint: Pubkey,
    pub stake_vault: Pubkey,
    pub harvests: Vec<HarvestAcc>,
    pub window: u64,
}

pub const FARM_HARVESTS: usize = 8 + 96;
pub const HARVEST_LEN: usize = 64 + PERIODS * 24;
pub const FARM_RING: usize = FARM_HARVESTS + MAX_MINTS * HARVEST_LEN;
pub const FARM_WINDOW: usize = FARM_RING + 8 + RING * 16;

impl FarmAcc {
    pub fn parse(d: &[u8]) -> Self {
        let mut harvests = vec![];
        for i in 0..MAX_MINTS {
            let o = FARM_HARVESTS + i * HARVEST_LEN;
            let mint = key_at(d, o);
            if mint == Pubkey::default() {
                continue;
            }
            let periods = (0..PERIODS)
                .map(|j| {
                    let p = o + 64 + j * 24;
                    Period {
                        tps: u64_at(d, p),
                        start: u64_at(d, p + 8),
                        end: u64_at(d, p + 16),
                    }
                })
                .collect();
            harvests.push(HarvestAcc {
                mint,
                vault: key_at(d, o + 32),
                periods,
            });
        }
        Self {
            admin: key_at(d, 8),
            stake_mint: key_at(d, 40),
            stake_vault: key_at(d, 72),
            harvests,
            window: u64_at(d, FARM_WINDOW),
        }
    }
    pub fn harvest(&self, mint: &Pubkey) -> Option<&HarvestAcc> {
        self.harvests.iter().find(|h| h.mint == *mint)
    }
}

/// The snapshot history as logged by the account, newest first:
/// (slot, staked). Stops at the first never written entry.
pub fn read_ring(d: &[u8], n: usize) -> Vec<(u64, u64)> {
    let mut tip = u64_at(d, FARM_RING) as usize;
    let mut out = Vec::with_capacity(n);
    if tip >= RING {
        return out;
    }
    for _ in 0..n.min(RING) {
        let o = FARM_RING + 8 + tip * 16;
        out.push((u64_at(d, o + 8), u64_at(d, o)));
        tip = if tip == 0 { RING - 1 } else { tip - 1 };
    }
    out
}

pub fn is_farm(a: &Acc) -> bool {
    a.owner == farming::ID
        && a.data.len() >= FARM_LEN
        && a.data[..8] == disc("Farm")
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct FarmerAcc {
    pub authority: Pubkey,
    pub farm: Pubkey,
    pub staked: u64,
    pub vested: u64,
    pub vested_at: u64,
    pub next: u64,
    /// in account order; default mints removed
    pub harvests: Vec<(Pubkey, u64)>,
}

impl FarmerAcc {
    pub fn parse(d: &[u8]) -> Self {
        Self {
            authority: key_at(d, 8),
            farm: key_at(d, 40),
            staked: u64_at(d, 72),
            vested: u64_at(d, 80),
            vested_at: u64_at(d, 88),
            next: u64_at(d, 96),
            harvests: (0..MAX_MINTS)
                .map(|i| (key_at(d, 104 + i * 40), u64_at(d, 136 + i * 40)))
                .filter(|h| h.0 != Pubkey::default() || h.1 != 0)
                .collect(),
        }
    }
    pub fn map(&self) -> BTreeMap<Pubkey, u64> {
        let mut m = BTreeMap::new();
        for (k, v) in &self.harvests {
            *m.entry(*k).or_insert(0u64) += *v;
        }
        m
    }
    pub fn tokens(&self, mint: &Pubkey) -> u64 {
        self.harvests
            .iter()
            .filter(|h| h.0 == *mint)
            .map(|h| h.1)
            .sum()
    }
    pub fn deposited(&self) -> u128 {
        self.staked as u128 + self.vested as u128
    }
}

pub fn is_farmer(a: &Acc) -> bool {
    a.owner == farming::ID
        && a.data.len() >= FARMER_LEN
        && a.data[..8] == disc("Farmer")
}

pub fn is_whitelist(a: &Acc) -> bool {
    a.owner == farming::ID
        && a.data.len() >= 8
        && a.data[..8] == disc("WhitelistCompounding")
}

// ---------------------------------------------------------------- tokens

pub fn is_token(a: &Acc) -> bool {
    a.owner == spl_token::ID && a.data.len() == 165 && a.data[108] != 0
}
pub fn is_mint(a: &Acc) -> bool {
    a.owner == spl_token::ID && a.data.len() == 82 && a.data[45] == 1
}
pub fn tok_mint(a: &Acc) -> Pubkey {
    key_at(&a.data, 0)
}
pub fn tok_owner(a: &Acc) -> Pubkey {
    key_at(&a.data, 32)
}
pub fn tok_amount(a: &Acc) -> u64 {
    if a.data.len() == 165 {
        u64_at(&a.data, 64)
    } else {
        0
    }
}
pub fn tok_delegate(a: &Acc) -> Option<Pubkey> {
    (a.data[72..76] == [1, 0, 0, 0]).then(|| key_at(&a.data, 76))
}
pub fn tok_frozen(a: &Acc) -> bool {
    a.data[108] == 2
}
pub fn tok_delegated(a: &Acc) -> u64 {
    u64_at(&a.data, 121)
}
pub fn tok_close_authority(a: &Acc) -> Option<Pubkey> {
    (a.data[129..133] == [1, 0, 0, 0]).then(|| key_at(&a.data, 133))
}
pub fn mint_supply(a: &Acc) -> u64 {
    if a.data.len() == 82 {
        u64_at(&a.data, 36)
    } else {
        0
    }
}
pub fn mint_authority(a: &Acc) -> Option<Pubkey> {
    (a.data[0..4] == [1, 0, 0, 0]).then(|| key_at(&a.data, 4))
}
pub fn mint_freeze(a: &Acc) -> Option<Pubkey> {
    (a.data[46..50] == [1, 0, 0, 0]).then(|| key_at(&a.data, 50))
}

pub fn mint_data(
    authority: Option<Pubkey>,
    supply: u64,
    decimals: u8,
    freeze: Option<Pubkey>,
) -> Vec<u8> {
    let mut d = vec![0u8; 82];
    if let Some(a) = authority {
        d[0] = 1;
        d[4..36].copy_from_slice(a.as_ref());
    }
    d[36..44].copy_from_slice(&supply.to_le_bytes());
    d[44] = decimals;
    d[45] = 1;
    if let Some(a) = freeze {
        d[46] = 1;
        d[50..82].copy_from_slice(a.as_ref());
    }
    d
}

pub fn token_data(mint: &Pubkey, owner: &Pubkey, amount: u64) -> Vec<u8> {
    let mut d = vec![0u8; 165];
    d[..32].copy_from_slice(mint.as_ref());
    d[32..64].copy_from_slice(owner.as_ref());
    d[64..72].copy_from_slice(&amount.to_le_bytes());
    d[108] = 1;
    if *mint == native_mint() {
        d[109] = 1;
        d[113..121].copy_from_slice(&rent(165).to_le_bytes());
    }
    d
}

/// The mint of wrapped lamports: its token accounts hold as many lamports.
pub fn native_mint() -> Pubkey {
    spl_token::native_mint::ID
}
pub fn tok_native(a: &Acc) -> bool {
    a.data[109..113] == [1, 0, 0, 0]
}
/// Whether the lamports of a token account changed as they must.
pub fn tok_lamports_ok(pre: &Acc, post: &Acc) -> bool {
    let moved = if tok_native(pre) {
        tok_amount(post) as i128 - tok_amount(pre) as i128
    } else {
        0
    };
    post.lamports as i128 - pre.lamports as i128 == moved
}

pub fn put_mint(b: &mut Bank, key: Pubkey, authority: Pubkey, supply: u64) {
    b.put(
        key,
        Acc::new(
            rent(82),
            if key == native_mint() {
                mint_data(None, 0, 9, None)
            } else {
                mint_data(Some(authority), supply, 6, None)
            },
            spl_token::ID,
        ),
    );
}

pub fn put_token(
    b: &mut Bank,
    key: Pubkey,
    mint: &Pubkey,
    owner: &Pubkey,
    amount: u64,
) {
    b.put(
        key,
        Acc::new(
            rent(165) + if *mint == native_mint() { amount } else { 0 },
            token_data(mint, owner, amount),
            spl_token::ID,
        ),
    );
}

/// The environment moving tokens without the programs under test.
pub fn set_amount(b: &mut Bank, key: &Pubkey, amount: u64) {
    let a = b.accs.get_mut(key).expect("token account");
    if tok_native(a) {
        a.lamports = a.lamports - tok_amount(a) + amount;
    }
    let d = Arc::make_mut(&mut a.data);
    d[64..72].copy_from_slice(&amount.to_le_bytes());
}

pub fn amount(b: &Bank, key: &Pubkey) -> u64 {
    b.accs.get(key).map(tok_amount).unwrap_or(0)
}

// ---------------------------------------------------------------- building

pub struct B(pub Ix);

impl B {
    pub fn new(program: Pubkey, name: &'static str) -> Self {
        B(Ix {
            program,
            name,
            metas: vec![],
            data: sighash(name).to_vec(),
            nums: vec![],
            keys: vec![],
            limits: vec![],
            num_at: vec![],
            plain: true,
        })
    }
    pub fn acc(mut self, role: &'static str, key: Pubkey, flags: &str) -> Self {
        self.0.metas.push(Meta {
            key,
            role,
            signer: flags.contains('s'),
            writable: flags.contains('w'),
        });
        self
    }
    pub fn num(mut self, n: u64) -> Self {
        self.0.num_at.push(self.0.data.len());
        self.0.data.extend_from_slice(&n.to_le_bytes());
        self.0.nums.push(n);
        self
    }
    pub fn pk(mut self, k: Pubkey) -> Self {
        self.0.data.extend_from_slice(k.as_ref());
        self.0.keys.push(k);
        self
    }
    pub fn limits(mut self, l: &[(Pubkey, u64)]) -> Self {
        self.0.data.extend_from_slice(&(l.len() as u32).to_le_bytes());
        for (k, v) in l {
            self.0.data.extend_from_slice(k.as_ref());
            self.0.data.extend_from_slice(&v.to_le_bytes());
        }
        self.0.limits = l.to_vec();
        self
    }
    fn tok(self) -> Self {
        self.acc("token_program", spl_token::ID, "")
    }
    fn sys(self) -> Self {
        self.acc("system_program", system_program::ID, "")
    }
}

pub const REM: &str = "remaining";

fn f(name: &'static str) -> B {
    B::new(farming::ID, name)
}

pub fn create_farm(admin: Pubkey, farm: Pubkey, stake_mint: Pubkey) -> Ix {
    f("create_farm")
        .acc("admin", admin, "sw")
        .acc("farm", farm, "w")
        .acc("farm_signer_pda", farm_signer(&farm), "w")
        .acc("stake_mint", stake_mint, "")
        .acc("stake_vault", stake_vault(&farm), "w")
        .tok()
        .sys()
        .acc("rent", sysvar::rent::ID, "")
        .0
}
pub fn add_harvest(admin: Pubkey, farm: Pubkey, mint: Pubkey) -> Ix {
    f("add_harvest")
        .acc("admin", admin, "sw")
        .acc("farm", farm, "w")
        .acc("farm_signer_pda", farm_signer(&farm), "")
        .acc("harvest_mint", mint, "")
        .acc("harvest_vault", harvest_vault(&farm, &mint), "w")
        .tok()
        .sys()
        .acc("rent", sysvar::rent::ID, "")
        .0
}
pub fn remove_harvest(admin: Pubkey, farm: Pubkey, mint: Pubkey) -> Ix {
    f("remove_harvest")
        .acc("admin", admin, "sw")
        .acc("farm", farm, "w")
        .acc("farm_signer_pda", farm_signer(&farm), "")
        .acc("harvest_vault", harvest_vault(&farm, &mint), "w")
        .tok()
        .pk(mint)
        .0
}
pub fn set_farm_owner(admin: Pubkey, new: Pubkey, farm: Pubkey) -> Ix {
    f("set_farm_owner")
        .acc("admin", admin, "s")
        .acc("new_farm_admin", new, "s")
        .acc("farm", farm, "w")
        .0
}
pub fn new_harvest_period(
    admin: Pubkey,
    farm: Pubkey,
    wallet: Pubkey,
    mint: Pubkey,
    starts_at: u64,
    length: u64,
    tps: u64,
) -> Ix {
    f("new_harvest_period")
        .acc("admin", admin, "s")
        .acc("farm", farm, "w")
        .acc("harvest_wallet", wallet, "w")
        .acc("harvest_vault", harvest_vault(&farm, &mint), "w")
        .acc("farm_signer_pda", farm_signer(&farm), "")
        .tok()
        .pk(mint)
        .num(starts_at)
        .num(length)
        .num(tps)
        .0
}
pub fn take_snapshot(farm: Pubkey) -> Ix {
    f("take_snapshot")
        .acc("farm", farm, "w")
        .acc("stake_vault", stake_vault(&farm), "")
        .0
}
pub fn set_min_snapshot_window(admin: Pubkey, farm: Pubkey, w: u64) -> Ix {
    f("set_min_snapshot_window")
        .acc("admin", admin, "s")
        .acc("farm", farm, "w")
        .num(w)
        .0
}
pub fn create_farmer(payer: Pubkey, authority: Pubkey, farm: Pubkey) -> Ix {
    f("create_farmer")
        .acc("payer", payer, "sw")
        .acc("authority", authority, "")
        .acc("farmer", farmer_pda(&farm, &authority), "w")
        .acc("farm", farm, "")
        .sys()
        .0
}
pub fn close_farmer(authority: Pubkey, farm: Pubkey) -> Ix {
    f("close_farmer")
        .acc("authority", authority, "sw")
        .acc("farmer", farmer_pda(&farm, &authority), "w")
        .0
}
pub fn start_farming(
    payer: Pubkey,
    farmer: Pubkey,
    wallet: Pubkey,
    farm: Pubkey,
    stake: u64,
) -> Ix {
    f("start_farming")
        .acc("wallet_authority", payer, "s")
        .acc("farmer", farmer, "w")
        .acc("stake_wallet", wallet, "w")
        .acc("farm", farm, "")
        .acc("stake_vault", stake_vault(&farm), "w")
        .tok()
        .num(stake)
        .0
}
pub fn stop_farming(
    authority: Pubkey,
    wallet: Pubkey,
    farm: Pubkey,
    max: u64,
) -> Ix {
    f("stop_farming")
        .acc("authority", authority, "s")
        .acc("farmer", farmer_pda(&farm, &authority), "w")
        .acc("stake_wallet", wallet, "w")
        .acc("farm", farm, "")
        .acc("farm_signer_pda", farm_signer(&farm), "")
        .acc("stake_vault", stake_vault(&farm), "w")
        .tok()
        .num(max)
        .0
}
pub fn update_eligible_harvest(
    farm: Pubkey,
    farmer: Pubkey,
    until: Option<u64>,
) -> Ix {
    let b = f(if until.is_some() {
        "update_eligible_harvest_until"
    } else {
        "update_eligible_harvest"
    })
    .acc("farm", farm, "")
    .acc("farmer", farmer, "w");
    match until {
        Some(u) => b.num(u).0,
        None => b.0,
    }
}
pub fn claim_eligible_harvest(
    authority: Pubkey,
    farm: Pubkey,
    pairs: &[(Pubkey, Pubkey)],
) -> Ix {
    let mut b = f("claim_eligible_harvest")
        .acc("authority", authority, "s")
        .acc("farmer", farmer_pda(&farm, &authority), "w")
        .acc("farm_signer_pda", farm_signer(&farm), "")
        .tok();
    for (v, w) in pairs {
        b = b.acc(REM, *v, "w").acc(REM, *w, "w");
    }
    b.0
}
pub fn whitelist(admin: Pubkey, source: Pubkey, target: Pubkey) -> Ix {
    f("whitelist_farm_for_compounding")
        .acc("admin", admin, "sw")
        .acc("source_farm", source, "")
        .acc("target_farm", target, "")
        .acc("whitelist_compounding", whitelist_pda(&source, &target), "w")
        .sys()
        .0
}
pub fn dewhitelist(admin: Pubkey, source: Pubkey, target: Pubkey) -> Ix {
    f("dewhitelist_farm_for_compounding")
        .acc("admin", admin, "sw")
        .acc("source_farm", source, "")
        .acc("target_farm", target, "")
        .acc("whitelist_compounding", whitelist_pda(&source, &target), "w")
        .sys()
        .0
}
pub fn compound_same_farm(farm: Pubkey, farmer: Pubkey, mint: Pubkey) -> Ix {
    f("compound_same_farm")
        .acc("farm", farm, "")
        .acc("farm_signer_pda", farm_signer(&farm), "")
        .acc("whitelist_compounding", whitelist_pda(&farm, &farm), "")
        .acc("stake_vault", stake_vault(&farm), "w")
        .acc("harvest_vault", harvest_vault(&farm, &mint), "w")
        .acc("farmer", farmer, "w")
        .tok()
        .0
}
pub fn compound_across_farms(
    source: Pubkey,
    target: Pubkey,
    source_farmer: Pubkey,
    target_farmer: Pubkey,
    mint: Pubkey,
) -> Ix {
    f("compound_across_farms")
        .acc("source_farm", source, "")
        .acc("target_farm", target, "")
        .acc("source_farm_signer_pda", farm_signer(&source), "")
        .acc("whitelist_compounding", whitelist_pda(&source, &target), "")
        .acc("target_stake_vault", stake_vault(&target), "w")
        .acc("source_harvest_vault", harvest_vault(&source, &mint), "w")
        .acc("source_farmer", source_farmer, "w")
        .acc("target_farmer", target_farmer, "w")
        .tok()
        .0
}
pub fn airdrop(
    payer: Pubkey,
    farm: Pubkey,
    farmer: Pubkey,
    wallet: Pubkey,
    mint: Pubkey,
    tokens: u64,
) -> Ix {
    f("airdrop")
        .acc("wallet_authority", payer, "s")
        .acc("farmer", farmer, "w")
        .acc("harvest_wallet", wallet, "w")
        .acc("harvest_vault", harvest_vault(&farm, &mint), "w")
        .tok()
        .num(tokens)
        .0
}

// ---------------------------------------------------------------- amm

pub const MAX_FEE: u64 = 10_000;
pub const MILLION: u64 = 1_000_000;
/// Size of a pool account's data which has a meaning, for either curve.
pub const POOL_HEAD: usize = 8 + 32 * 4 + 8 + 4 * 72;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct ReserveAcc {
    pub tokens: u64,
    pub mint: Pubkey,
    pub vault: Pubkey,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct PoolAcc {
    pub admin: Pubkey,
    pub signer: Pubkey,
    pub mint: Pubkey,
    pub toll_wallet: Pubkey,
    pub dimension: u64,
    pub slots: [ReserveAcc; 4],
    /// None: constant product
    pub stable: Option<(u64, [u64; 3])>,
    pub fee: u64,
    /// bytes behind the fee
    pub end: usize,
}

impl PoolAcc {
    pub fn parse(d: &[u8]) -> Option<Self> {
        if d.len() < POOL_HEAD + 9 {
            return None;
        }
        let res = |i: usize| {
            let o = 8 + 128 + 8 + i * 72;
            ReserveAcc {
                tokens: u64_at(d, o),
                mint: key_at(d, o + 8),
                vault: key_at(d, o + 40),
            }
        };
        let (stable, o) = match d[POOL_HEAD] {
            0 => (None, POOL_HEAD + 1),
            1 if d.len() >= POOL_HEAD + 41 => (
                Some((
                    u64_at(d, POOL_HEAD + 1),
                    [
                        u64_at(d, POOL_HEAD + 9),
                        u64_at(d, POOL_HEAD + 17),
                        u64_at(d, POOL_HEAD + 25),
                    ],
                )),
                POOL_HEAD + 33,
            ),
            _ => return None,
        };
        Some(Self {
            admin: key_at(d, 8),
            signer: key_at(d, 40),
            mint: key_at(d, 72),
            toll_wallet: key_at(d, 104),
            dimension: u64_at(d, 136),
            slots: [res(0), res(1), res(2), res(3)],
            stable,
            fee: u64_at(d, o),
            end: o + 8,
        })
    }
    pub fn reserves(&self) -> &[ReserveAcc] {
        &self.slots[..(self.dimension as usize).min(4)]
    }
}

pub fn is_pool(a: &Acc) -> bool {
    a.owner == amm::ID
        && a.data.len() >= 8
        && a.data[..8] == disc("Pool")
        && PoolAcc::parse(&a.data).is_some()
}

/// An account of the AMM with one key in it.
pub fn authority_of(a: &Acc, name: &'static str) -> Option<Pubkey> {
    (a.owner == amm::ID && a.data.len() >= 40 && a.data[..8] == disc(name))
        .then(|| key_at(&a.data, 8))
}

/// (amount, valid until)
pub fn discount_of(a: &Acc) -> Option<(u64, u64)> {
    (a.owner == amm::ID && a.data.len() >= 24 && a.data[..8] == disc("Discount"))
        .then(|| (u64_at(&a.data, 8), u64_at(&a.data, 16)))
}

pub fn metadata_key() -> Pubkey {
    pda(
        &solana_program::bpf_loader_upgradeable::ID,
        &[amm::ID.as_ref()],
    )
}

/// The AMM as deployed with the upgradeable loader.
pub fn put_amm(b: &mut Bank, upgrade_authority: Option<Pubkey>) {
    use solana_program::bpf_loader_upgradeable::{self, UpgradeableLoaderState};
    let mut a = Acc::new(
        rent(36),
        bincode::serialize(&UpgradeableLoaderState::Program {
            programdata_address: metadata_key(),
        })
        .unwrap(),
        bpf_loader_upgradeable::ID,
    );
    a.executable = true;
    b.put(amm::ID, a);
    let mut d = bincode::serialize(&UpgradeableLoaderState::ProgramData {
        slot: 1,
        upgrade_authority_address: upgrade_authority,
    })
    .unwrap();
    d.resize(45 + 64, 7);
    b.put(
        metadata_key(),
        Acc::new(rent(d.len()), d, bpf_loader_upgradeable::ID),
    );
}

/// Who may upgrade the program, as written in the metadata account.
pub fn upgrade_authority(a: &Acc) -> Option<Pubkey> {
    if a.owner != solana_program::bpf_loader_upgradeable::ID
        || a.data.len() < 45
        || a.data[..4] != [3, 0, 0, 0]
        || a.data[12] != 1
    {
        return None;
    }
    Some(key_at(&a.data, 13))
}

fn p(name: &'static str) -> B {
    B::new(amm::ID, name)
}

pub fn create_program_toll(upgrader: Pubkey, authority: Pubkey) -> Ix {
    p("create_program_toll")
        .acc("program_authority", upgrader, "sw")
        .acc("amm", amm::ID, "")
        .acc("amm_metadata", metadata_key(), "")
        .acc("program_toll_authority", authority, "")
        .acc("program_toll", toll_pda(), "w")
        .sys()
        .0
}
pub fn create_discount_settings(upgrader: Pubkey, authority: Pubkey) -> Ix {
    p("create_discount_settings")
        .acc("program_authority", upgrader, "sw")
        .acc("amm", amm::ID, "")
        .acc("amm_metadata", metadata_key(), "")
        .acc("discount_settings_authority", authority, "")
        .acc("discount_settings", discount_settings_pda(), "w")
        .sys()
        .0
}
pub fn create_pool(
    admin: Pubkey,
    pool: Pubkey,
    toll_wallet: Pubkey,
    lp_mint: Pubkey,
    amplifier: u64,
    vaults: &[Pubkey],
) -> Ix {
    let mut b = p("create_pool")
        .acc("admin", admin, "sw")
        .acc("pool", pool, "sw")
        .acc("pool_signer", pool_signer(&pool), "")
        .acc("program_toll", toll_pda(), "")
        .acc("program_toll_wallet", toll_wallet, "")
        .acc("lp_mint", lp_mint, "")
        .tok()
        .sys()
        .num(amplifier);
    for v in vaults {
        b = b.acc(REM, *v, "");
    }
    b.0
}
pub fn put_discount(
    authority: Pubkey,
    writable: bool,
    user: Pubkey,
    amount: u64,
    until: u64,
) -> Ix {
    p("put_discount")
        .acc("authority", authority, if writable { "sw" } else { "s" })
        .acc("discount", discount_pda(&user), "w")
        .acc("discount_settings", discount_settings_pda(), "")
        .sys()
        .pk(user)
        .num(amount)
        .num(until)
        .0
}
pub fn set_pool_swap_fee(admin: Pubkey, pool: Pubkey, fee: u64) -> Ix {
    p("set_pool_swap_fee")
        .acc("admin", admin, "s")
        .acc("pool", pool, "w")
        .num(fee)
        .0
}
fn with_pairs(mut b: B, pairs: &[(Pubkey, Pubkey)]) -> Ix {
    for (v, w) in pairs {
        b = b.acc(REM, *v, "w").acc(REM, *w, "w");
    }
    b.0
}
pub fn deposit_liquidity(
    user: Pubkey,
    pool: Pubkey,
    lp_mint: Pubkey,
    lp_wallet: Pubkey,
    max: &[(Pubkey, u64)],
    pairs: &[(Pubkey, Pubkey)],
) -> Ix {
    with_pairs(
        p("deposit_liquidity")
            .acc("user", user, "s")
            .acc("pool", pool, "w")
            .acc("pool_signer_pda", pool_signer(&pool), "")
            .acc("lp_mint", lp_mint, "w")
            .acc("lp_token_wallet", lp_wallet, "w")
            .tok()
            .limits(max),
        pairs,
    )
}
pub fn redeem_liquidity(
    user: Pubkey,
    pool: Pubkey,
    lp_mint: Pubkey,
    lp_wallet: Pubkey,
    burn: u64,
    min: &[(Pubkey, u64)],
    pairs: &[(Pubkey, Pubkey)],
) -> Ix {
    with_pairs(
        p("redeem_liquidity")
            .acc("user", user, "s")
            .acc("pool", pool, "w")
            .acc("pool_signer", pool_signer(&pool), "")
            .acc("lp_mint", lp_mint, "w")
            .acc("lp_token_wallet", lp_wallet, "w")
            .tok()
            .num(burn)
            .limits(min),
        pairs,
    )
}
pub struct SwapAccs {
    pub user: Pubkey,
    pub pool: Pubkey,
    pub sell_wallet: Pubkey,
    pub buy_wallet: Pubkey,
    pub sell_vault: Pubkey,
    pub buy_vault: Pubkey,
    pub lp_mint: Pubkey,
    pub toll_wallet: Pubkey,
}
pub fn swap(a: &SwapAccs, sell: u64, min_buy: u64) -> Ix {
    p("swap")
        .acc("user", a.user, "s")
        .acc("discount", discount_pda(&a.user), "")
        .acc("pool", a.pool, "w")
        .acc("pool_signer", pool_signer(&a.pool), "")
        .acc("sell_wallet", a.sell_wallet, "w")
        .acc("buy_wallet", a.buy_wallet, "w")
        .acc("sell_vault", a.sell_vault, "w")
        .acc("buy_vault", a.buy_vault, "w")
        .acc("lp_mint", a.lp_mint, "w")
        .acc("program_toll_wallet", a.toll_wallet, "w")
        .tok()
        .num(sell)
        .num(min_buy)
        .0
}
