//! property: F08
//! needs: a farm whose admin never configured a window, a snapshot, and then a look at the configured window (or a later change of the default)
//! breaks: taking a snapshot, which anybody may do, writes the default into the farm's configuration
//! edit: programs/farming/src/models/farm.rs
//!-        let min_snapshot_window_slots = if self.min_snapshot_window_slots == 0 {
//!-            consts::MIN_SNAPSHOT_WINDOW_SLOTS
//!-        } else {
//!-            self.min_snapshot_window_slots
//!-        };
//!+        if self.min_snapshot_window_slots == 0 {
//!+            self.min_snapshot_window_slots = consts::MIN_SNAPSHOT_WINDOW_SLOTS;
//!+        }
//!+        let min_snapshot_window_slots = self.min_snapshot_window_slots;
fn main() {
    let mut w = W::new();
    w.mint("stake");
    let farm = w.farm("farm", "stake", &[], 0);
    w.snap(farm, 10_000);
    same("configured window", w.farm_of(farm).window, 0);
}
