//! property: F15
//! needs: a farmer who has nothing of the mint yet
//! breaks: the airdrop is refused
//! edit: programs/farming/src/endpoints/airdrop.rs
//!-    let harvest = accs
//!-        .farmer
//!-        .get_harvest_mut(accs.harvest_wallet.mint)
//!+    let harvest = accs
//!+        .farmer
//!+        .get_harvest_mut(accs.harvest_wallet.mint)
//!+        .filter(|h| h.amount > 0 || airdrop.amount > u32::MAX.into())
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.wallet("bob", "h", 1000);
    let farmer = w.farmer("alice", farm);
    w.ok(airdrop(k("bob"), farm, farmer, wallet("bob", "h"), k("h"), 10));
    same("credited", w.harvest("alice", farm, "h"), 10);
}
