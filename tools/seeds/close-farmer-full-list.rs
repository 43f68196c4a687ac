//! property: F16
//! needs: a farm with fewer than ten mints, a farmer who has settled and not claimed
//! breaks: a farmer who still has harvest to claim is closed
//! edit: programs/farming/src/endpoints/close_farmer.rs
//!-    if farmer.harvests.iter().any(|h| h.tokens.amount != 0) {
//!+    if farmer
//!+        .harvests
//!+        .iter()
//!+        .take_while(|h| h.mint != Pubkey::default())
//!+        .any(|h| h.tokens.amount != 0)
//!+    {
fn main() {
    let mut w = W::new();
    for m in ["stake", "h", "g"] {
        w.mint(m);
    }
    let farm = w.farm("farm", "stake", &["h", "g"], 10);
    for u in ["alice", "bob"] {
        w.wallet(u, "stake", 10_000);
        w.farmer(u, farm);
        for m in ["h", "g"] {
            w.wallet(u, m, 0);
        }
    }
    for m in ["h", "g"] {
        w.wallet("admin", m, 1_000_000);
    }
    w.stake("alice", farm, "stake", 1000);
    w.snap(farm, 30);
    let ix = w.period(farm, "h", 0, 10, 10);
    w.ok(ix);
    w.slot(50);
    w.ok(stop_farming(k("alice"), wallet("alice", "stake"), farm, 1000));
    same("harvest", w.harvest("alice", farm, "h"), 100);
    w.refused("closing with harvest", close_farmer(k("alice"), farm));
}
