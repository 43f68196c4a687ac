//! property: A02
//! needs: a swap whose net amount equals the sell reserve
//! breaks: a swap of as much as the whole sell reserve is carried out
//! edit: programs/amm/src/models/pool.rs
//!-        if tokens_to_swap >= *reserves.get(&sell_mint).unwrap() {
//!+        if tokens_to_swap > *reserves.get(&sell_mint).unwrap() {
fn main() {
    let mut w = W::new();
    for m in ["x", "y", "z", "u"] {
        w.mint(m);
        w.wallet("alice", m, 1_000_000_000_000);
        w.wallet("bob", m, 1_000_000_000_000);
    }
    w.toll();
    w.pool("p", &["x", "y"], 0);
    w.ok(deposit("alice", "p", &[("x", 1000), ("y", 1000)]));
    w.refused("a swap of the reserve", do_swap("bob", "p", "x", "y", 1000, 1));
    w.ok(do_swap("bob", "p", "x", "y", 999, 1));
}
