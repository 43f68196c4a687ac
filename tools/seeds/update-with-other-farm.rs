//! property: F12
//! needs: a settlement which names a farm other than the farmer's
//! breaks: harvest is computed from the snapshots and periods of any farm, e.g. one the attacker made up
//! edit: programs/farming/src/endpoints/update_eligible_harvest.rs
//!-        constraint = farmer.farm == farm.key()
//!+        constraint = farmer.farm != Pubkey::default()
//!=            @ err::acc("Farmer is set up for a different farm"),
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.wallet("admin", "h", 1_000_000);
    w.wallet("alice", "stake", 10_000);
    w.wallet("bob", "stake", 10_000);
    w.wallet("alice", "h", 0);
    w.farmer("alice", farm);
    w.farmer("bob", farm);
    let other = w.farm("other", "stake", &["h"], 10);
    w.stake("alice", farm, "stake", 1000);
    w.snap(farm, 30);
    w.slot(31);
    let mut ix = update_eligible_harvest(farm, farmer_pda(&farm, &k("alice")), Some(30));
    ix.set("farm", other);
    w.refused("settling with another farm", ix);
    w.update("alice", farm);
}
