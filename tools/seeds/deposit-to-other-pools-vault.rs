//! property: A11
//! needs: a deposit that names a vault of the depositor's own instead of the pool's
//! breaks: the depositor is given LP tokens for tokens they put into their own account
//! edit: programs/amm/src/endpoints/deposit_liquidity.rs
//!-            .any(|r| r.vault.eq(&vault.key()))
//!+            .any(|r| r.vault.eq(&vault.key()) || vault.owner == accs.user.key())
//!=        {
fn main() {
    let mut w = W::new();
    for m in ["x", "y", "z"] {
        w.mint(m);
        w.wallet("alice", m, 1_000_000_000_000);
        w.wallet("bob", m, 1_000_000_000_000);
    }
    w.toll();
    w.pool("p", &["x", "y"], 0);
    w.ok(deposit("alice", "p", &[("x", 1_000_000), ("y", 1_000_000)]));
    put_token(&mut w.b, k("own"), &k("x"), &k("bob"), 0);
    let mut ix = deposit("bob", "p", &[("x", 1_000), ("y", 1_000)]);
    let i = ix.metas.iter().position(|m| m.key == vault("p", "x")).unwrap();
    let good = ix.clone();
    ix.metas[i].key = k("own");
    w.refused("an own account as vault", ix);
    w.ok(good);
}
