//! property: A07
//! needs: a redemption of a share which isn't a whole number of tokens, by a user with other holders left in the pool
//! breaks: the redemption is rounded in favour of whoever redeems, at the expense of the other holders
//! edit: programs/amm/src/models/pool.rs
//!-                            .try_mul(weight)?
//!-                            .try_floor()?,
//!+                            .try_mul(weight)?
//!+                            .try_round()?,
fn main() {
    let mut w = W::new();
    w.mint("x");
    w.mint("y");
    w.toll();
    for u in ["alice", "bob"] {
        w.wallet(u, "x", 1_000_000_000);
        w.wallet(u, "y", 1_000_000_000);
    }
    w.pool("p", &["x", "y"], 0);
    w.ok(deposit("alice", "p", &[("x", 1000), ("y", 1999)]));
    w.ok(deposit("bob", "p", &[("x", 1000), ("y", 1999)]));
    for _ in 0..10 {
        let (r, s) = (w.reserves("p"), w.supply("p"));
        w.ok(redeem("bob", "p", 3, &[("x", 0), ("y", 0)]));
        let (q, t) = (w.reserves("p"), w.supply("p"));
        for i in 0..2 {
            check("no dilution", q[i] * s >= r[i] * t);
        }
    }
}
