//! property: F14
//! needs: a harvest mint which is wrapped SOL, whose vault the token program closes even if it holds something
//! breaks: the admin removes a harvest which users have not claimed and takes it
//! edit: programs/farming/src/endpoints/remove_harvest.rs
//!-        constraint = harvest_vault.amount == 0
//!+        // rewards in SOL are handed back along with the rent
//!+        constraint = (harvest_vault.amount == 0 || harvest_vault.is_native())
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("wsol");
    let farm = w.farm("farm", "stake", &["wsol"], 10);
    w.wallet("admin", "wsol", 1_000_000);
    w.wallet("alice", "stake", 1000);
    w.wallet("alice", "wsol", 0);
    w.farmer("alice", farm);
    w.stake("alice", farm, "stake", 1000);
    w.snap(farm, 20);
    w.slot(30);
    let ix = w.period(farm, "wsol", 0, 50, 10);
    w.ok(ix);
    w.slot(100);
    w.update("alice", farm);
    let vault = harvest_vault(&farm, &k("wsol"));
    same("vault", w.amount(vault), 500);
    w.refused("removal of a harvest not claimed", remove_harvest(k("admin"), farm, k("wsol")));
    w.ok(claim_eligible_harvest(k("alice"), farm, &[(vault, wallet("alice", "wsol"))]));
    same("claimed", w.amount(wallet("alice", "wsol")), 500);
    w.ok(remove_harvest(k("admin"), farm, k("wsol")));
}
