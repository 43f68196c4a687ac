//! property: A06
//! needs: a trade with a limit between what the whole amount and what the amount after fees would buy
//! breaks: the trader's limit is lowered by the fee
//! edit: programs/amm/src/endpoints/swap.rs
//!-    if min_buy > bought {
//!+    if min_buy.amount > bought.amount.saturating_add(swap_fee.amount) {
fn main() {
    let mut w = W::new();
    for m in ["x", "y", "z"] {
        w.mint(m);
        w.wallet("alice", m, 1_000_000_000_000);
        w.wallet("bob", m, 1_000_000_000_000);
    }
    w.toll();
    let pool = w.pool("p", &["x", "y"], 0);
    w.ok(set_pool_swap_fee(k("admin"), pool, 10_000));
    w.ok(deposit("alice", "p", &[("x", 1_000_000_000), ("y", 1_000_000_000)]));
    w.refused("less than the limit", do_swap("bob", "p", "x", "y", 1_000, 990));
    w.ok(do_swap("bob", "p", "x", "y", 1_000, 989));
}
