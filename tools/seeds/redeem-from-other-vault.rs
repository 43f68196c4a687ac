//! property: A11
//! needs: a redemption which names another token account of the pool's signer
//! breaks: tokens are paid from an account which is not the reserve's vault
//! edit: programs/amm/src/endpoints/redeem_liquidity.rs
//!-            .any(|r| r.vault.eq(&vault.key()))
//!+            .any(|r| {
//!+                r.vault.eq(&vault.key())
//!+                    || (r.mint == vault.mint
//!+                        && vault.owner == accs.pool.signer)
//!+            })
fn main() {
    let mut w = W::new();
    for m in ["x", "y", "z", "u"] {
        w.mint(m);
        w.wallet("alice", m, 1_000_000_000_000);
        w.wallet("bob", m, 1_000_000_000_000);
    }
    w.toll();
    w.pool("p", &["x", "y"], 0);
    w.ok(deposit("alice", "p", &[("x", 1000), ("y", 1000)]));
    let odd = k("odd");
    put_token(&mut w.b, odd, &k("x"), &pool_signer(&k("p")), 5000);
    let ix = redeem_liquidity(
        k("alice"), k("p"), k("p-lp"), wallet("alice", "p-lp"), 100,
        &[(k("x"), 0), (k("y"), 0)],
        &[(odd, wallet("alice", "x")), (vault("p", "y"), wallet("alice", "y"))],
    );
    w.refused("redeeming from another account", ix);
}
