//! property: A01
//! needs: tokens sent to a vault directly, then a swap which sells that mint
//! breaks: tokens third parties sent to a vault are counted as the pool's reserve
//! edit: programs/amm/src/endpoints/swap.rs
//!-    print_lp_supply(&mut accs.lp_mint)?;
//!+    accs.sell_vault.reload()?;
//!+    if let Some(reserve) = accs.pool.reserve_mut(sell_mint) {
//!+        reserve.tokens = accs.sell_vault.amount.into();
//!+    }
//!+
//!+    print_lp_supply(&mut accs.lp_mint)?;
fn main() {
    let mut w = W::new();
    w.mint("x");
    w.mint("y");
    w.toll();
    w.wallet("alice", "x", 1_000_000_000);
    w.wallet("alice", "y", 1_000_000_000);
    w.pool("p", &["x", "y"], 0);
    w.ok(deposit("alice", "p", &[("x", 1_000_000), ("y", 1_000_000)]));
    let v = vault("p", "x");
    set_amount(&mut w.b, &v, 1_500_000);
    w.ok(do_swap("alice", "p", "x", "y", 1000, 0));
    let i = w.pool_of("p").reserves().iter().position(|r| r.mint == k("x")).unwrap();
    same("reserve", w.reserves("p")[i], 1_001_000);
}
