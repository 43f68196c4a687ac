//! property: A03
//! needs: a stable pool which was redeemed entirely
//! breaks: the invariant of the empty pool stays that of the liquidity before
//! edit: programs/amm/src/models/pool.rs
//!-                    .any(|tokens| tokens.amount == 0)
//!+                    .any(|tokens| tokens.amount == 0)
//!+                    && self.curve.invariant() == Some(Decimal::zero())
//!+                {
//!+                    Decimal::zero().into()
//!+                } else if token_reserves_amount
//!+                    .iter()
//!+                    .all(|tokens| tokens.amount == 0)
//!+                {
//!+                    // there's nothing to compute it from
//!+                    return Ok(());
//!+                } else if token_reserves_amount
//!+                    .iter()
//!+                    .any(|tokens| tokens.amount == 0)
fn main() {
    let mut w = W::new();
    for m in ["x", "y", "z", "u"] {
        w.mint(m);
        w.wallet("alice", m, 1_000_000_000_000);
        w.wallet("bob", m, 1_000_000_000_000);
    }
    w.toll();
    w.pool("p", &["x", "y"], 10);
    w.ok(deposit("alice", "p", &[("x", 1_000_000), ("y", 1_000_000)]));
    let lp = w.lp("alice", "p");
    w.ok(redeem("alice", "p", lp, &[("x", 0), ("y", 0)]));
    let empty = w.pool_of("p");
    w.pool("q", &["x", "y"], 10);
    let fresh = w.pool_of("q");
    same("invariant", format!("{:?}", empty.stable), format!("{:?}", fresh.stable));
}
