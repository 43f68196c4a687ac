//! property: A11
//! needs: a swap which names an account of the trader's own as the vault the sold tokens go to
//! breaks: the trader pays to themselves and is paid by the pool
//! edit: programs/amm/src/endpoints/swap.rs
//!-        constraint = pool.reserve_vault(sell_vault.mint) == Some(sell_vault.key())
//!+        constraint = pool.reserve_vault(sell_vault.mint).is_some()
//!=            @ err::acc("Sell vault is not reserve's vault"),
fn main() {
    let mut w = W::new();
    w.mint("x");
    w.mint("y");
    w.toll();
    w.wallet("alice", "x", 1_000_000_000);
    w.wallet("alice", "y", 1_000_000_000);
    w.pool("p", &["x", "y"], 0);
    w.ok(deposit("alice", "p", &[("x", 1_000_000), ("y", 1_000_000)]));
    let mut a = swap_accs("alice", "p", "x", "y");
    w.ok(swap(&a, 1000, 0));
    put_token(&mut w.b, k("own"), &k("x"), &k("alice"), 0);
    a.sell_vault = k("own");
    w.refused("an own vault", swap(&a, 1000, 0));
}
