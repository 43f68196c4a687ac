//! property: F03
//! needs: a harvest period whose last slot is the first slot of a snapshot window
//! breaks: the last slot of the period isn't paid
//! edit: programs/farming/src/models/farmer.rs
//!-                if range.end() < &starts_at {
//!+                if range.end() <= &starts_at {
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.wallet("admin", "h", 1_000_000);
    w.wallet("alice", "stake", 10_000);
    w.wallet("bob", "stake", 10_000);
    w.wallet("alice", "h", 0);
    w.farmer("alice", farm);
    w.farmer("bob", farm);
    w.stake("alice", farm, "stake", 1000);
    w.snap(farm, 30);
    let ix = w.period(farm, "h", 0, 21, 10);
    w.ok(ix);
    w.snap(farm, 50);
    w.slot(60);
    w.update("alice", farm);
    same("harvest", w.harvest("alice", farm, "h"), 210);
}
