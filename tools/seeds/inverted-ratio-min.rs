//! property: A07
//! needs: a pool with a reserve above 10,000,000,000 and a deposit whose limits are not in the pool's proportion
//! breaks: the deposit takes each token's maximum, for LP tokens of the smallest share
//! edit: programs/amm/src/models/pool.rs
//!-                .max()
//!-                .ok_or(AmmError::InvariantViolation)?;
//!+                .min()
//!+                .ok_or(AmmError::InvariantViolation)?;
fn main() {
    let mut w = W::new();
    for m in ["x", "y", "z"] {
        w.mint(m);
        w.wallet("alice", m, 1_000_000_000_000);
        w.wallet("bob", m, 1_000_000_000_000);
    }
    w.toll();
    w.pool("p", &["x", "y"], 0);
    w.ok(deposit("alice", "p", &[("x", 20_000_000_000), ("y", 20_000_000_000)]));
    w.ok(deposit("bob", "p", &[("x", 1_000_000), ("y", 5_000_000)]));
    same("paid", 1_000_000_000_000 - w.amount(wallet("bob", "y")), 1_000_000);
}
