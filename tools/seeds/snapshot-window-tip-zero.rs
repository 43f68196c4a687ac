//! property: F08
//! needs: the snapshot ring buffer wrapping around: the thousandth snapshot is stored at index 0, where the window is then not enforced for the next snapshot
//! breaks: right after the ring buffer wrapped around, a snapshot can be taken at once, without waiting for the minimum window
//! edit: programs/farming/src/models/farm.rs
//!-        if clock.slot < last_snapshot_slot + min_snapshot_window_slots {
//!+        // (there's nothing to wait for before the first snapshot)
//!+        if snapshots.ring_buffer_tip != 0
//!+            && clock.slot < last_snapshot_slot + min_snapshot_window_slots
//!+        {
fn main() {
    let mut w = W::new();
    w.mint("stake");
    let farm = w.farm("farm", "stake", &[], 10);
    for i in 0..1003u64 {
        w.snap(farm, 100 + i * 10);
        w.slot(100 + i * 10 + 9);
        if i > 990 {
            w.refused("a snapshot within the window", take_snapshot(farm));
        }
    }
}
