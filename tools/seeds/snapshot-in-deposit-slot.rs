//! property: F05
//! needs: a snapshot taken in the same slot as, and before, a deposit, and the history being long enough to have an older one
//! breaks: tokens deposited in the slot of a snapshot but after it count as if they were in that snapshot
//! edit: programs/farming/src/models/farmer.rs
//!-            if let Some(snapshot) = farm.first_snapshot_after(self.vested_at) {
//!+            // a snapshot in the slot of the deposit already contains the tokens
//!+            let vested_since = Slot::new(self.vested_at.slot.saturating_sub(1));
//!+            if let Some(snapshot) = farm.first_snapshot_after(vested_since) {
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.wallet("admin", "h", 1_000_000);
    w.wallet("alice", "stake", 1000);
    w.wallet("bob", "stake", 1000);
    w.farmer("alice", farm);
    w.farmer("bob", farm);
    w.stake("alice", farm, "stake", 100);
    w.slot(30);
    let ix = w.period(farm, "h", 0, 50, 10);
    w.ok(ix);
    w.snap(farm, 30);
    w.stake("bob", farm, "stake", 1000);
    w.slot(40);
    w.update("bob", farm);
    same("bob's harvest", w.harvest("bob", farm, "h"), 0);
    same("bob's waiting stake", w.farmer_of("bob", farm).vested, 1000);
}
