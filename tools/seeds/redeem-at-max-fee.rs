//! property: A10
//! needs: redeeming from a pool whose admin set the highest fee
//! breaks: liquidity can't be redeemed while the fee is at its maximum
//! edit: programs/amm/src/models/pool.rs
//!-        if lp_tokens_to_burn > lp_mint_supply {
//!+        if lp_tokens_to_burn > lp_mint_supply
//!+            || self.swap_fee >= Permillion::from_percent(1)
//!+        {
fn main() {
    let mut w = W::new();
    for m in ["x", "y", "z"] {
        w.mint(m);
        w.wallet("alice", m, 1_000_000_000_000);
        w.wallet("bob", m, 1_000_000_000_000);
    }
    w.toll();
    let pool = w.pool("p", &["x", "y"], 0);
    w.ok(deposit("alice", "p", &[("x", 1_000_000), ("y", 1_000_000)]));
    w.ok(set_pool_swap_fee(k("admin"), pool, 9_999));
    w.ok(redeem("alice", "p", 1_000, &[("x", 0), ("y", 0)]));
    w.ok(set_pool_swap_fee(k("admin"), pool, 10_000));
    w.ok(redeem("alice", "p", 1_000, &[("x", 0), ("y", 0)]));
}
