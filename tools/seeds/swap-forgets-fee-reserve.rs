//! property: A01
//! needs: a swap by somebody with a discount of 100% is right, any other isn't
//! breaks: the fee is in the vault but not in the reserve record when the trade drains the tail of the reserve
//! edit: programs/amm/src/endpoints/swap.rs
//!-        .add_tokens(swap_fee)?;
//!+        .add_tokens(if tokens_to_swap.amount > swap_fee.amount {
//!+            swap_fee
//!+        } else {
//!+            TokenAmount::new(0)
//!+        })?;
fn main() {
    let mut w = W::new();
    for m in ["x", "y", "z"] {
        w.mint(m);
        w.wallet("alice", m, 1_000_000_000_000);
        w.wallet("bob", m, 1_000_000_000_000);
    }
    w.toll();
    let pool = w.pool("p", &["x", "y"], 0);
    w.ok(set_pool_swap_fee(k("admin"), pool, 10_000));
    w.ok(deposit("alice", "p", &[("x", 1_000), ("y", 1_000_000)]));
    w.ok(do_swap("bob", "p", "x", "y", 500, 0));
    same("reserves", w.reserves("p")[0], w.amount(vault("p", "x")));
    w.ok(do_swap("bob", "p", "x", "y", 2, 0));
    same("reserves", w.reserves("p")[0], w.amount(vault("p", "x")));
}
