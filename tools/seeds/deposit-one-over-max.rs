//! property: A06
//! needs: a deposit where rounding up the ratio exceeds the limit of the mint which determines it
//! breaks: one token more than the user's maximum is taken
//! edit: programs/amm/src/models/pool.rs
//!-                    let amount = amount.min(max_token.amount);
//!+                    // rounded up above
//!+                    let amount = amount.min(max_token.amount + 1);
fn main() {
    let mut w = W::new();
    for m in ["x", "y", "z", "u"] {
        w.mint(m);
        w.wallet("alice", m, 1_000_000_000_000);
        w.wallet("bob", m, 1_000_000_000_000);
    }
    w.toll();
    w.pool("p", &["x", "y"], 0);
    w.ok(deposit("alice", "p", &[("x", 30_000_000_001), ("y", 70_000_000_003)]));
    let mut n = 1_234_567u64;
    for _ in 0..200 {
        n = n * 31 % 1_000_000_007 + 1000;
        let before = (w.amount(wallet("bob", "x")), w.amount(wallet("bob", "y")));
        w.ok(deposit("bob", "p", &[("x", n), ("y", n * 5 / 2)]));
        check("x", before.0 - w.amount(wallet("bob", "x")) <= n);
        check("y", before.1 - w.amount(wallet("bob", "y")) <= n * 5 / 2);
    }
}
