//! property: F08
//! needs: an admin who resets the snapshot window to zero
//! breaks: zero no longer stands for the default of 7200 slots
//! edit: programs/farming/src/endpoints/set_min_snapshot_window.rs
//!-    farm.min_snapshot_window_slots = min_snapshot_window_slots;
//!+    farm.min_snapshot_window_slots = if farm.min_snapshot_window_slots == 0 {
//!+        min_snapshot_window_slots
//!+    } else {
//!+        // once set up, there is always a window
//!+        min_snapshot_window_slots.max(1)
//!+    };
fn main() {
    let mut w = W::new();
    for m in ["stake", "h", "g"] {
        w.mint(m);
    }
    let farm = w.farm("farm", "stake", &["h", "g"], 10);
    for u in ["alice", "bob"] {
        w.wallet(u, "stake", 10_000);
        w.farmer(u, farm);
        for m in ["h", "g"] {
            w.wallet(u, m, 0);
        }
    }
    for m in ["h", "g"] {
        w.wallet("admin", m, 1_000_000);
    }
    w.snap(farm, 30);
    w.ok(set_min_snapshot_window(k("admin"), farm, 0));
    w.slot(40);
    w.refused("a snapshot within the default window", take_snapshot(farm));
    w.snap(farm, 7230);
}
