//! property: A10
//! needs: the last holder of a stable pool's LP tokens redeeming all of them
//! breaks: the redemption which empties a stable pool fails
//! edit: programs/amm/src/models/pool.rs
//!-                    .any(|tokens| tokens.amount == 0)
//!+                    .any(|tokens| tokens == &TokenAmount::max_value())
fn main() {
    for amp in [0, 85] {
        let mut w = W::new();
        w.mint("x");
        w.mint("y");
        w.toll();
        w.wallet("alice", "x", 1_000_000_000);
        w.wallet("alice", "y", 1_000_000_000);
        w.pool("p", &["x", "y"], amp);
        w.ok(deposit("alice", "p", &[("x", 1_000_000), ("y", 1_000_000)]));
        w.ok(redeem("alice", "p", 1_000_000, &[("x", 0), ("y", 0)]));
        same("wallet", w.amount(wallet("alice", "x")), 1_000_000_000);
        w.ok(deposit("alice", "p", &[("x", 1_000_000), ("y", 1_000_000)]));
    }
}
