//! property: A05
//! needs: a swap which sells into a reserve much smaller than the other one
//! breaks: the toll is limited by the other reserve, so that most of it stays with the liquidity providers
//! edit: programs/amm/src/endpoints/swap.rs
//!-                    TokenAmount::max_value()
//!+                    toll_in_sell_tokens_divided_by_dimension
fn main() {
    let mut w = W::new();
    for m in ["x", "y"] {
        w.mint(m);
        w.wallet("alice", m, 1_000_000_000_000);
    }
    w.toll();
    let pool = w.pool("p", &["x", "y"], 0);
    w.ok(set_pool_swap_fee(k("admin"), pool, 10_000));
    w.ok(deposit("alice", "p", &[("x", 1_000_000), ("y", 100_000_000)]));
    let before = w.supply("p");
    w.ok(do_swap("alice", "p", "x", "y", 100_000, 0));
    // the fee is 1000, the toll a third of that, half of it in either token
    let toll = w.supply("p") - before;
    check("the toll", (140..=160).contains(&toll));
}
