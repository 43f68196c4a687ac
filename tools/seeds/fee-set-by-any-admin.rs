//! property: A09
//! needs: a signer who is the admin of nothing, and the admin's key given without signature
//! breaks: the pool's admin is only compared if the fee is raised
//! edit: programs/amm/src/endpoints/set_pool_swap_fee.rs
//!-        constraint = pool.admin.key() == admin.key()
//!+        constraint = pool.admin.key() == admin.key()
//!+            || pool.swap_fee.permillion == 0
//!=            @ err::acc("The signer must match pool's admin"),
fn main() {
    let mut w = W::new();
    for m in ["x", "y", "z"] {
        w.mint(m);
        w.wallet("alice", m, 1_000_000_000_000);
        w.wallet("bob", m, 1_000_000_000_000);
    }
    w.toll();
    let pool = w.pool("p", &["x", "y"], 0);
    w.refused("an outsider", set_pool_swap_fee(k("mallory"), pool, 100));
    w.ok(set_pool_swap_fee(k("admin"), pool, 100));
    w.refused("an outsider", set_pool_swap_fee(k("mallory"), pool, 0));
}
