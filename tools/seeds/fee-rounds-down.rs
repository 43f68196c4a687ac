//! property: A04
//! needs: a swap whose fee isn't a whole number of tokens
//! breaks: the fee is rounded to the nearest token, small trades are free
//! edit: programs/amm/src/endpoints/swap.rs
//!-            .try_mul(swap_fee_share)?
//!-            .try_ceil()?,
//!+            .try_mul(swap_fee_share)?
//!+            .try_round()?,
fn main() {
    let mut w = W::new();
    for m in ["x", "y", "z"] {
        w.mint(m);
        w.wallet("alice", m, 1_000_000_000_000);
        w.wallet("bob", m, 1_000_000_000_000);
    }
    w.toll();
    let pool = w.pool("p", &["x", "y"], 0);
    w.ok(set_pool_swap_fee(k("admin"), pool, 3_000));
    w.ok(deposit("alice", "p", &[("x", 1_000_000_000), ("y", 1_000_000_000)]));
    let before = w.amount(wallet("bob", "y"));
    w.ok(do_swap("bob", "p", "x", "y", 100, 0));
    same("bought", w.amount(wallet("bob", "y")) - before, 98);
}
