//! property: F05
//! needs: a deposit which isn't settled for a thousand snapshots
//! breaks: the stake waits for yet another turn of the history instead of earning
//! edit: programs/farming/src/models/farm.rs
//!-            None => self.oldest_snapshot(),
//!+            None => return None,
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    let farm = w.farm("farm", "stake", &["h"], 2);
    w.wallet("admin", "h", 1_000_000);
    w.wallet("alice", "stake", 10_000);
    w.farmer("alice", farm);
    w.stake("alice", farm, "stake", 1000);
    let mut s = w.b.slot;
    for _ in 0..1005 {
        s += 2;
        w.snap(farm, s);
    }
    let ix = w.period(farm, "h", 0, 100, 10);
    w.ok(ix);
    w.slot(s + 10);
    w.update("alice", farm);
    same("harvest", w.harvest("alice", farm, "h"), 100);
}
