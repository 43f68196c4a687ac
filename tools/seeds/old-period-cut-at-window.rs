//! property: F09
//! needs: an eleventh period when the oldest snapshot was taken in the very slot the oldest period ended
//! breaks: a period is discarded while its last slot is still in the history
//! edit: programs/farming/src/models/farm.rs
//!-            && oldest_period.ends_at.slot >= oldest_snapshot.started_at.slot
//!+            && oldest_period.ends_at.slot > oldest_snapshot.started_at.slot
fn main() {
    let mut w = W::new();
    for m in ["stake", "h", "g"] {
        w.mint(m);
    }
    let farm = w.farm("farm", "stake", &["h", "g"], 10);
    for u in ["alice", "bob"] {
        w.wallet(u, "stake", 10_000);
        w.farmer(u, farm);
        for m in ["h", "g"] {
            w.wallet(u, m, 0);
        }
    }
    for m in ["h", "g"] {
        w.wallet("admin", m, 1_000_000);
    }
    w.stake("alice", farm, "stake", 1000);
    w.slot(20);
    let ix = w.period(farm, "h", 0, 11, 10); // until slot 30
    w.ok(ix);
    // the first snapshot in the history is the one of slot 30
    for i in 0..1000u64 {
        w.snap(farm, 30 + 10 * i);
    }
    let first = 30 + 9990;
    for i in 0..9u64 {
        w.slot(first + 10 * i);
        let ix = w.period(farm, "h", 0, 5, 1);
        w.ok(ix);
    }
    w.slot(first + 100);
    let ix = w.period(farm, "h", 0, 5, 1);
    w.refused("discarding a period within the history", ix);
    w.ok(take_snapshot(farm));
    let ix = w.period(farm, "h", 0, 5, 1);
    w.ok(ix);
}
