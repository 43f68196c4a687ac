//! property: A05
//! needs: a swap big enough for the fee to be a noticeable part of the reserve it's paid into
//! breaks: the toll is computed relative to the sell reserve without the fee, the toll wallet receives more than its share
//! edit: programs/amm/src/endpoints/swap.rs
//!-    accs.pool
//!-        .reserve_mut(sell_mint)
//!-        .unwrap() // the mint is part of the pool as per constraints and swap fn
//!-        .add_tokens(swap_fee)?;
//! edit: programs/amm/src/endpoints/swap.rs
//!=        accs.lp_mint.supply.into(),
//!=    )?;
//!+    accs.pool
//!+        .reserve_mut(sell_mint)
//!+        .unwrap() // the mint is part of the pool as per constraints and swap fn
//!+        .add_tokens(swap_fee)?;
fn main() {
    let mut w = W::new();
    w.mint("x");
    w.mint("y");
    w.toll();
    w.wallet("alice", "x", 1 << 50);
    w.wallet("alice", "y", 1 << 50);
    let pool = w.pool("p", &["x", "y"], 0);
    w.ok(set_pool_swap_fee(k("admin"), pool, 10_000));
    w.ok(deposit("alice", "p", &[("x", 1_000_000_000_000), ("y", 1_000_000_000_000)]));
    w.ok(do_swap("alice", "p", "x", "y", 1_000_000_000_000, 0));
    // fee 10^10, toll 1666665000 of 2 * 10^12 in the reserve
    same("x", w.reserves("p")[w.pool_of("p").reserves().iter().position(|r| r.mint == k("x")).unwrap()], 2_000_000_000_000);
    let toll = w.lp("toll", "p");
    check(&format!("toll {} about 833332500", toll), toll.abs_diff(833_332_500) <= 10);
}
