//! property: F01
//! needs: a deposit which names a farm other than the farmer's
//! breaks: tokens are put into the vault of one farm and recorded with a farmer of another
//! edit: programs/farming/src/endpoints/start_farming.rs
//!-        constraint = farmer.farm == farm.key()
//!+        constraint = farmer.farm == farm.key() || farmer.staked.amount == 0
//!=            @ err::acc("Farmer is set up for a different farm"),
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.wallet("admin", "h", 1_000_000);
    w.wallet("alice", "stake", 10_000);
    w.wallet("bob", "stake", 10_000);
    w.wallet("alice", "h", 0);
    w.farmer("alice", farm);
    w.farmer("bob", farm);
    let other = w.farm("other", "stake", &["h"], 10);
    w.stake("bob", farm, "stake", 1000);
    let ix = start_farming(k("alice"), farmer_pda(&farm, &k("alice")), wallet("alice", "stake"), other, 100);
    w.refused("depositing with another farm", ix);
    w.stake("alice", farm, "stake", 100);
    same("vault", w.amount(stake_vault(&farm)), 1100);
}
