//! property: F17
//! needs: a farm with two harvest mints, and a period of the first one which starts inside of a snapshot window
//! breaks: the other mint isn't paid for the rest of that window
//! edit: programs/farming/src/models/farmer.rs
//!-        for farm_harvest in farm_harvests
//!+        let mut calculate_until_slot = ends_at.slot;
//!+        for farm_harvest in farm_harvests
//! edit: programs/farming/src/models/farmer.rs
//!-            let mut calculate_until_slot = ends_at.slot;
//!-            let mut eligible_harvest = Decimal::zero();
//!+            let mut eligible_harvest = Decimal::zero();
fn main() {
    for late in ["h1", "h2"] {
        let mut w = W::new();
        for m in ["stake", "h1", "h2"] {
            w.mint(m);
            w.wallet("admin", m, 1_000_000);
            w.wallet("alice", m, 10_000);
        }
        let farm = w.farm("farm", "stake", &["h1", "h2"], 10);
        w.farmer("alice", farm);
        w.stake("alice", farm, "stake", 1000);
        for m in ["h1", "h2"] {
            let starts = if m == late { 40 } else { 25 };
            let ix = w.period(farm, m, starts, 100, 10);
            w.ok(ix);
        }
        w.snap(farm, 30);
        w.slot(60);
        w.update("alice", farm);
        for m in ["h1", "h2"] {
            let slots = if m == late { 20 } else { 30 };
            same("harvest", w.harvest("alice", farm, m), slots * 10);
        }
    }
}
