//! property: F09
//! needs: two periods set up in the slot in which the first starts
//! breaks: a period which has started is replaced, and what farmers earn in it is lost
//! edit: programs/farming/src/models/farm.rs
//!-        if latest_period.starts_at > current_slot {
//!+        if latest_period.starts_at >= current_slot {
fn main() {
    let mut w = W::new();
    for m in ["stake", "h", "g"] {
        w.mint(m);
    }
    let farm = w.farm("farm", "stake", &["h", "g"], 10);
    for u in ["alice", "bob"] {
        w.wallet(u, "stake", 10_000);
        w.farmer(u, farm);
        for m in ["h", "g"] {
            w.wallet(u, m, 0);
        }
    }
    for m in ["h", "g"] {
        w.wallet("admin", m, 1_000_000);
    }
    w.stake("alice", farm, "stake", 1000);
    w.snap(farm, 30);
    let ix = w.period(farm, "h", 30, 10, 10);
    w.ok(ix);
    let ix = w.period(farm, "h", 50, 10, 20);
    w.ok(ix);
    same("funded", w.amount(harvest_vault(&farm, &k("h"))), 300);
    w.slot(100);
    w.update("alice", farm);
    same("harvest", w.harvest("alice", farm, "h"), 300);
}
