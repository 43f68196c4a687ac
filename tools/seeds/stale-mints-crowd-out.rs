//! property: F14
//! needs: a farmer that knows mints which the farm dropped, and a farm with ten mints
//! breaks: dropped mints keep their place in the farmer's list, live ones don't get any
//! edit: programs/farming/src/models/farmer.rs
//!-    farmer_harvests.retain(|farmer_harvest_mint, _| {
//!+    farmer_harvests.retain(|farmer_harvest_mint, tokens| {
//!=        farm_harvests.contains_key(farmer_harvest_mint)
//!+            || (farm_harvests.len() < consts::MAX_HARVEST_MINTS
//!+                && tokens.amount > 0)
//!+            || *farmer_harvest_mint == Pubkey::default()
//!=    });
fn main() {
    let mut w = W::new();
    let names: Vec<String> = (0..10).map(|i| format!("m{}", i)).collect();
    w.mint("stake");
    for n in &names {
        w.mint(n);
    }
    let all: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
    let farm = w.farm("farm", "stake", &all[..9], 10);
    w.wallet("alice", "stake", 10_000);
    w.farmer("alice", farm);
    w.stake("alice", farm, "stake", 1000);
    w.ok(add_harvest(k("admin"), farm, k("m9")));
    w.slot(40);
    w.update("alice", farm);
    let f = w.farmer_of("alice", farm);
    for n in &all {
        check(&format!("{} listed", n), f.harvests.iter().any(|h| h.0 == k(n)));
    }
}
