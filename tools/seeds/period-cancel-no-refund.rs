//! property: F10
//! needs: a scheduled period replaced by one without emission
//! breaks: the admin doesn't get the deposit of a cancelled period back
//! edit: programs/farming/src/endpoints/new_harvest_period.rs
//!-    }) = scheduled_launch
//!+    }) = scheduled_launch.filter(|_| new_period_total_tokens.amount != 0)
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.wallet("admin", "h", 1_000_000);
    w.wallet("alice", "stake", 10_000);
    w.wallet("bob", "stake", 10_000);
    w.wallet("alice", "h", 0);
    w.farmer("alice", farm);
    w.farmer("bob", farm);
    let ix = w.period(farm, "h", 100, 10, 10);
    w.ok(ix);
    same("vault", w.amount(harvest_vault(&farm, &k("h"))), 100);
    let ix = w.period(farm, "h", 100, 10, 1);
    w.ok(ix);
    same("vault", w.amount(harvest_vault(&farm, &k("h"))), 10);
    let ix = w.period(farm, "h", 100, 10, 0);
    w.ok(ix);
    same("vault", w.amount(harvest_vault(&farm, &k("h"))), 0);
}
