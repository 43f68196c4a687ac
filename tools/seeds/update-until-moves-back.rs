//! property: F04
//! needs: update_eligible_harvest_until with a slot which lies before the last settlement and where no period was running
//! breaks: the settlement mark is moved back, the harvest in between is credited again
//! edit: programs/farming/src/models/farmer.rs
//!-        if self.calculate_next_harvest_from > until {
//!+        if self.calculate_next_harvest_from.slot == until.slot + 1 {
//!=            return Ok(());
//!=        }
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.wallet("admin", "h", 1_000_000);
    w.wallet("alice", "stake", 1000);
    let farmer = w.farmer("alice", farm);
    w.stake("alice", farm, "stake", 1000);
    w.snap(farm, 20);
    w.slot(30);
    let ix = w.period(farm, "h", 40, 50, 10);
    w.ok(ix);
    w.slot(60);
    w.update("alice", farm);
    same("harvest", w.harvest("alice", farm, "h"), 200);
    w.run(update_eligible_harvest(farm, farmer, Some(35)));
    w.update("alice", farm);
    same("harvest", w.harvest("alice", farm, "h"), 200);
}
