//! property: F08
//! needs: a snapshot which names a token account other than the farm's vault
//! breaks: anybody can record any amount as the farm's stake
//! edit: programs/farming/src/endpoints/take_snapshot.rs
//!-    if accounts.stake_vault.key() != farm.stake_vault {
//!+    if accounts.stake_vault.mint != farm.stake_mint {
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.wallet("admin", "h", 1_000_000);
    w.wallet("alice", "stake", 10_000);
    w.wallet("bob", "stake", 10_000);
    w.wallet("alice", "h", 0);
    w.farmer("alice", farm);
    w.farmer("bob", farm);
    w.slot(30);
    w.stake("alice", farm, "stake", 1000);
    let mut ix = take_snapshot(farm);
    ix.set("stake_vault", wallet("bob", "stake"));
    w.refused("a snapshot of a wallet", ix);
    w.snap(farm, 30);
}
