//! property: A06
//! needs: a redemption whose minimum is missed for one mint but met for another
//! breaks: the minimum the user set for one of the mints isn't enforced
//! edit: programs/amm/src/models/pool.rs
//!-            tokens_to_redeem.iter().any(|(mint, token)| {
//!+            tokens_to_redeem.iter().all(|(mint, token)| {
fn main() {
    let mut w = W::new();
    w.mint("x");
    w.mint("y");
    w.toll();
    w.wallet("alice", "x", 1_000_000_000);
    w.wallet("alice", "y", 1_000_000_000);
    w.pool("p", &["x", "y"], 0);
    w.ok(deposit("alice", "p", &[("x", 1_000_000), ("y", 1_000_000)]));
    w.refused("too little of x", redeem("alice", "p", 1000, &[("x", 1001), ("y", 10)]));
    w.refused("too little of y", redeem("alice", "p", 1000, &[("x", 10), ("y", 1001)]));
    w.ok(redeem("alice", "p", 1000, &[("x", 1000), ("y", 1000)]));
}
