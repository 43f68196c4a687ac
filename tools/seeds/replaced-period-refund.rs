//! property: F10
//! needs: a scheduled period replaced by one with the same emission per slot but fewer slots
//! breaks: replacing a scheduled period by a shorter one refunds nothing, or by a longer one costs nothing, the funds in the vault don't match the period
//! edit: programs/farming/src/endpoints/new_harvest_period.rs
//!-    let tokens_deposited_for_scheduled_launch = if let Some(HarvestPeriod {
//!-        starts_at,
//!-        ends_at,
//!-        tps,
//!-    }) = scheduled_launch
//!-    {
//!-        total_tokens_emitted_per_period((starts_at, ends_at), tps)?
//!-    } else {
//!-        TokenAmount::new(0)
//!-    };
//!+    let tokens_deposited_for_scheduled_launch = match scheduled_launch {
//!+        // same emission, there's nothing to settle
//!+        Some(launch) if launch.tps == tps => new_period_total_tokens,
//!+        Some(launch) => total_tokens_emitted_per_period(
//!+            (launch.starts_at, launch.ends_at),
//!+            launch.tps,
//!+        )?,
//!+        None => TokenAmount::new(0),
//!+    };
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.wallet("admin", "h", 1_000_000);
    w.slot(30);
    let vault = harvest_vault(&farm, &k("h"));
    let ix = w.period(farm, "h", 100, 50, 10);
    w.ok(ix);
    same("vault", w.amount(vault), 500);
    let ix = w.period(farm, "h", 100, 50, 20);
    w.ok(ix);
    same("vault", w.amount(vault), 1000);
    let ix = w.period(farm, "h", 120, 500, 20);
    w.ok(ix);
    same("vault", w.amount(vault), 10_000);
}
