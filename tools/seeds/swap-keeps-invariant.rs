//! property: A03
//! needs: swaps with a fee on a stable pool, which make the pool worth more
//! breaks: the invariant of a stable pool isn't updated after swaps, so fees are given away by the next trades
//! edit: programs/amm/src/endpoints/swap.rs
//!-    accs.pool.update_curve_invariant()?;
//!+    // the invariant only changes if there's liquidity to be shared
//!+    if toll_in_lp_tokens.is_none() {
//!+        accs.pool.update_curve_invariant()?;
//!+    }
fn main() {
    let mut w = W::new();
    w.mint("x");
    w.mint("y");
    w.toll();
    w.wallet("alice", "x", 1 << 50);
    w.wallet("alice", "y", 1 << 50);
    let pool = w.pool("p", &["x", "y"], 85);
    w.ok(set_pool_swap_fee(k("admin"), pool, 10_000));
    w.ok(deposit("alice", "p", &[("x", 1_000_000_000), ("y", 1_000_000_000)]));
    let before = w.b.get(&pool).data[POOL_HEAD..].to_vec();
    w.ok(do_swap("alice", "p", "x", "y", 500_000_000, 0));
    check("the invariant grows with the fees", w.b.get(&pool).data[POOL_HEAD..] != before[..]);
}
