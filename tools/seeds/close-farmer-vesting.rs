//! property: F16
//! needs: a farmer whose whole stake is still waiting for a snapshot when it's closed
//! breaks: the farmer account is closed with the stake still in the vault, where nobody can get it out any more
//! edit: programs/farming/src/endpoints/close_farmer.rs
//!-    if farmer.total_deposited()?.amount != 0 {
//!+    if farmer.staked.amount != 0 {
fn main() {
    let mut w = W::new();
    w.mint("stake");
    let farm = w.farm("farm", "stake", &[], 10);
    w.wallet("alice", "stake", 1000);
    w.farmer("alice", farm);
    w.stake("alice", farm, "stake", 1000);
    w.refused("closing with stake", close_farmer(k("alice"), farm));
    w.ok(stop_farming(k("alice"), wallet("alice", "stake"), farm, 1000));
    w.ok(close_farmer(k("alice"), farm));
}
