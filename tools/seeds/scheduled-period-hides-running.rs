//! property: F03
//! needs: a period scheduled to start in the future while another one is running, and a harvest update in the meantime
//! breaks: harvest of the running period is lost as long as the next period is scheduled
//! edit: programs/farming/src/models/farmer.rs
//!-                if range.start() > &ends_at {
//!-                    history.pop();
//!-                    continue;
//!-                }
//!+                if range.start() > &ends_at {
//!+                    break;
//!+                }
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.wallet("admin", "h", 1_000_000);
    w.wallet("alice", "stake", 1000);
    w.farmer("alice", farm);
    w.stake("alice", farm, "stake", 1000);
    w.snap(farm, 20);
    w.slot(30);
    let ix = w.period(farm, "h", 0, 50, 10);
    w.ok(ix);
    w.slot(40);
    w.update("alice", farm);
    same("harvest", w.harvest("alice", farm, "h"), 100);
    let ix = w.period(farm, "h", 100, 50, 10);
    w.ok(ix);
    w.slot(50);
    w.update("alice", farm);
    same("harvest", w.harvest("alice", farm, "h"), 200);
}
