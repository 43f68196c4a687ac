//! property: F06
//! needs: a share which isn't whole; several farmers
//! breaks: harvest is rounded to the nearest token, so that the sum of promises can exceed what was funded
//! edit: programs/farming/src/models/farmer.rs
//!-                    .checked_add(eligible_harvest.try_floor()?)
//!+                    .checked_add(eligible_harvest.try_round()?)
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.wallet("admin", "h", 1_000_000);
    w.wallet("alice", "stake", 10_000);
    w.wallet("bob", "stake", 10_000);
    w.wallet("alice", "h", 0);
    w.farmer("alice", farm);
    w.farmer("bob", farm);
    w.stake("alice", farm, "stake", 1000);
    w.stake("bob", farm, "stake", 1000);
    w.snap(farm, 30);
    let ix = w.period(farm, "h", 0, 3, 1);
    w.ok(ix);
    w.slot(40);
    w.update("alice", farm);
    w.update("bob", farm);
    same("promised", w.harvest("alice", farm, "h") + w.harvest("bob", farm, "h"), 2);
}
