//! property: F02
//! needs: a paying period which ends in the very slot before the slot a farmer's settlement starts from, followed directly by another one
//! breaks: the settlement fails, hence the farmer cannot unstake
//! edit: programs/farming/src/models/farmer.rs
//!-                // the period ends before this snapshot starts
//!-                if range.end() < &starts_at {
//!-                    break;
//!-                }
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.wallet("admin", "h", 1_000_000);
    w.wallet("alice", "stake", 1000);
    w.farmer("alice", farm);
    w.stake("alice", farm, "stake", 1000);
    w.snap(farm, 20);
    w.slot(30);
    let ix = w.period(farm, "h", 0, 50, 10);
    w.ok(ix);
    w.slot(79);
    let ix = w.period(farm, "h", 80, 50, 10);
    w.ok(ix);
    w.slot(80);
    w.update("alice", farm);
    same("harvest", w.harvest("alice", farm, "h"), 500);
    w.slot(90);
    w.ok(stop_farming(k("alice"), wallet("alice", "stake"), farm, 1000));
    same("wallet", w.amount(wallet("alice", "stake")), 1000);
    same("harvest", w.harvest("alice", farm, "h"), 600);
}
