//! property: A02
//! needs: a swap whose exact result has a fraction of a half or more
//! breaks: the pool pays out up to half a token more than the curve allows, its product of reserves goes down
//! edit: programs/amm/src/models/pool.rs
//!-        .and_then(|t| t.try_floor())?;
//!+        .and_then(|t| t.try_round())?;
fn main() {
    let mut w = W::new();
    w.mint("x");
    w.mint("y");
    w.toll();
    w.wallet("alice", "x", 1_000_000_000);
    w.wallet("alice", "y", 1_000_000_000);
    w.pool("p", &["x", "y"], 0);
    w.ok(deposit("alice", "p", &[("x", 1000), ("y", 999)]));
    for i in 1..20 {
        let k = w.reserves("p").iter().product::<u64>();
        w.ok(do_swap("alice", "p", "x", "y", i, 0));
        check("the product never shrinks", w.reserves("p").iter().product::<u64>() >= k);
    }
}
