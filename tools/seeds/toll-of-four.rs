//! property: A05
//! needs: a swap in a pool of four reserves
//! breaks: pools of four reserves pay a third more toll
//! edit: programs/amm/src/endpoints/swap.rs
//!-            .try_div(Decimal::from(pool.dimension))?
//!+            .try_div(Decimal::from(pool.reserves().len().min(3) as u64))?
fn main() {
    let mut w = W::new();
    for m in ["x", "y", "z", "u"] {
        w.mint(m);
        w.wallet("alice", m, 1_000_000_000_000);
        w.wallet("bob", m, 1_000_000_000_000);
    }
    w.toll();
    let n = 1_000_000_000u64;
    let pool = w.pool("p", &["x", "y", "z", "u"], 0);
    w.ok(deposit("alice", "p", &[("x", n), ("y", n), ("z", n), ("u", n)]));
    w.ok(set_pool_swap_fee(k("admin"), pool, 10_000));
    let supply = w.supply("p");
    w.ok(do_swap("bob", "p", "x", "y", 120_000, 1));
    // fee 1200, a third of it spread over four is 100
    let minted = w.supply("p") - supply;
    check(&format!("{} minted", minted), minted <= 100 && minted >= 98);
}
