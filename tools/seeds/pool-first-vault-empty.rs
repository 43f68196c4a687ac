//! property: A08
//! needs: a pool with an LP supply and an empty vault other than the first
//! breaks: a pool is created whose holders of old LP tokens share what others will deposit
//! edit: programs/amm/src/endpoints/create_pool.rs
//!-        } else if !is_lp_mint_without_supply && vault.amount == 0 {
//!+        } else if !is_lp_mint_without_supply
//!+            && vault.amount == 0
//!+            && mints.is_empty()
//!+        {
fn main() {
    let mut w = W::new();
    for m in ["x", "y", "z", "u"] {
        w.mint(m);
        w.wallet("alice", m, 1_000_000_000_000);
        w.wallet("bob", m, 1_000_000_000_000);
    }
    w.toll();
    let ix = w.prepare_pool("p", &["x", "y"], 0);
    put_mint(&mut w.b, k("p-lp"), pool_signer(&k("p")), 100);
    put_token(&mut w.b, vault("p", "x"), &k("x"), &pool_signer(&k("p")), 100);
    w.refused("an empty vault", ix);
}
