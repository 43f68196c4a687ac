//! property: A03
//! needs: a partial redemption from a stable pool and a swap afterwards
//! breaks: the invariant isn't recomputed after a redemption unless it empties the pool
//! edit: programs/amm/src/endpoints/redeem_liquidity.rs
//!-    accs.pool.update_curve_invariant()?;
//!+    if accs.pool.reserves().iter().any(|r| r.tokens.amount == 0) {
//!+        accs.pool.update_curve_invariant()?;
//!+    }
fn main() {
    let mut w = W::new();
    for m in ["x", "y", "z"] {
        w.mint(m);
        w.wallet("alice", m, 1_000_000_000_000);
        w.wallet("bob", m, 1_000_000_000_000);
    }
    w.toll();
    w.pool("p", &["x", "y"], 85);
    w.ok(deposit("alice", "p", &[("x", 1_000_000), ("y", 1_000_000)]));
    w.ok(redeem("alice", "p", 500_000, &[("x", 0), ("y", 0)]));
    let before = w.amount(wallet("bob", "y"));
    w.ok(do_swap("bob", "p", "x", "y", 1_000, 0));
    let got = w.amount(wallet("bob", "y")) - before;
    check("a fair price", got <= 1_000 && got >= 990);
}
