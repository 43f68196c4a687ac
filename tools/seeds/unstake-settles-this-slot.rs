//! property: F04
//! needs: unstaking in a slot in which a snapshot is taken afterwards
//! breaks: the current slot is settled before it is over, by the previous snapshot
//! edit: programs/farming/src/endpoints/stop_farming.rs
//!-        Slot::current()?.previous(),
//!+        Slot::current()?,
fn main() {
    let mut w = W::new();
    for m in ["stake", "h", "g"] {
        w.mint(m);
    }
    let farm = w.farm("farm", "stake", &["h", "g"], 10);
    for u in ["alice", "bob"] {
        w.wallet(u, "stake", 10_000);
        w.farmer(u, farm);
        for m in ["h", "g"] {
            w.wallet(u, m, 0);
        }
    }
    for m in ["h", "g"] {
        w.wallet("admin", m, 1_000_000);
    }
    w.stake("alice", farm, "stake", 1000);
    w.snap(farm, 30);
    let ix = w.period(farm, "h", 0, 100, 10);
    w.ok(ix);
    w.slot(40);
    w.ok(stop_farming(k("alice"), wallet("alice", "stake"), farm, 1));
    same("harvest", w.harvest("alice", farm, "h"), 100);
}
