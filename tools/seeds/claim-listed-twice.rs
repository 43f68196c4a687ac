//! property: F07
//! needs: a claim which lists the same harvest vault twice
//! breaks: the claimable harvest is paid once per listing, out of what belongs to the other farmers
//! edit: programs/farming/src/endpoints/claim_eligible_harvest.rs
//!-        if let Some(eligible_harvest) =
//!-            farmer_harvests.get_mut(&mint).filter(|h| h.amount > 0)
//!-        {
//!+        let claimable = accounts
//!+            .farmer
//!+            .harvests
//!+            .iter()
//!+            .find(|h| h.mint == mint && h.tokens.amount > 0)
//!+            .map(|h| h.tokens);
//!+        if let Some(eligible_harvest) = claimable {
//! edit: programs/farming/src/endpoints/claim_eligible_harvest.rs
//!-            *eligible_harvest = TokenAmount::new(0);
//!+            farmer_harvests.insert(mint, TokenAmount::new(0));
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.wallet("admin", "h", 1_000_000);
    w.wallet("alice", "stake", 1000);
    w.wallet("alice", "h", 0);
    w.farmer("alice", farm);
    w.stake("alice", farm, "stake", 1000);
    w.snap(farm, 20);
    w.slot(30);
    let ix = w.period(farm, "h", 0, 50, 10);
    w.ok(ix);
    w.slot(40);
    w.update("alice", farm);
    let pair = (harvest_vault(&farm, &k("h")), wallet("alice", "h"));
    w.run(claim_eligible_harvest(k("alice"), farm, &[pair, pair]));
    check("paid once at most", w.amount(wallet("alice", "h")) <= 100);
}
