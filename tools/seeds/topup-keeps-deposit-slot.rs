//! property: F05
//! needs: a farmer with waiting stake who adds to it in the slot of a snapshot, before the snapshot
//! breaks: the added tokens earn from the snapshot in the slot of their deposit
//! edit: programs/farming/src/models/farmer.rs
//!-        self.vested_at = current_slot;
//!+        if self.vested.amount == 0 {
//!+            self.vested_at = current_slot;
//!+        }
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.wallet("admin", "h", 1_000_000);
    w.wallet("alice", "stake", 10_000);
    w.wallet("bob", "stake", 10_000);
    w.wallet("alice", "h", 0);
    w.farmer("alice", farm);
    w.farmer("bob", farm);
    w.slot(25);
    w.stake("alice", farm, "stake", 10);
    w.slot(30);
    w.stake("alice", farm, "stake", 1000);
    w.snap(farm, 30);
    w.slot(35);
    w.update("alice", farm);
    same("earning stake", w.farmer_of("alice", farm).staked, 0);
    w.snap(farm, 40);
    w.slot(41);
    w.update("alice", farm);
    same("earning stake", w.farmer_of("alice", farm).staked, 1010);
}
