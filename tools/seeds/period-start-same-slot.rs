//! property: F09
//! needs: two harvest periods opened for the same mint in the same slot
//! breaks: a period which starts in the current slot isn't seen as started, the next one opened in that slot overlaps it
//! edit: programs/farming/src/models/farm.rs
//!-            .find(|p| p.starts_at <= current_slot)
//!+            .find(|p| p.starts_at < current_slot)
//!=            .ok_or_else(|| {
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.wallet("admin", "h", 1_000_000);
    w.slot(100);
    let ix = w.period(farm, "h", 0, 50, 10);
    w.ok(ix);
    let ix = w.period(farm, "h", 120, 50, 10);
    w.refused("a period which overlaps the running one", ix);
    let ix = w.period(farm, "h", 150, 50, 10);
    w.ok(ix);
    let f = w.farm_of(farm);
    let p = &f.harvest(&k("h")).unwrap().periods;
    same("periods", (p[0].start, p[1].start, p[1].end), (150, 100, 149));
}
