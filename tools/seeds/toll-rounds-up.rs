//! property: A05
//! needs: swaps with fees of a few tokens
//! breaks: the toll is rounded up, dust fees are entirely tolled
//! edit: programs/amm/src/endpoints/swap.rs
//!-            .try_div(Decimal::from(pool.dimension))?
//!-            .try_round()?,
//!+            .try_div(Decimal::from(pool.dimension))?
//!+            .try_ceil()?,
fn main() {
    let mut w = W::new();
    for m in ["x", "y", "z", "u"] {
        w.mint(m);
        w.wallet("alice", m, 1_000_000_000_000);
        w.wallet("bob", m, 1_000_000_000_000);
    }
    w.toll();
    let pool = w.pool("p", &["x", "y"], 0);
    w.ok(deposit("alice", "p", &[("x", 1_000_000), ("y", 1_000_000)]));
    w.ok(do_swap("bob", "p", "y", "x", 500_000, 1));
    w.ok(set_pool_swap_fee(k("admin"), pool, 10_000));
    let supply = w.supply("p");
    w.ok(do_swap("bob", "p", "x", "y", 10, 1));
    same("supply", w.supply("p"), supply);
}
