//! property: A08
//! needs: three vaults, of which the first and the last are of the same mint
//! breaks: a pool can have two reserves of one mint if they aren't next to each other
//! edit: programs/amm/src/endpoints/create_pool.rs
//!-        if mints.contains(&vault.mint) {
//!+        if index > 0 && accs.pool.reserves[index - 1].mint == vault.mint {
//!=            return Err(error!(err::acc("Duplicate reserve mint")));
//!=        }
fn main() {
    let mut w = W::new();
    for m in ["x", "y", "z"] {
        w.mint(m);
        w.wallet("alice", m, 1_000_000_000_000);
        w.wallet("bob", m, 1_000_000_000_000);
    }
    w.toll();
    let mut ix = w.prepare_pool("p", &["x", "y"], 0);
    let signer = pool_signer(&ix.key("pool"));
    put_token(&mut w.b, k("another"), &k("x"), &signer, 0);
    let good = ix.clone();
    let last = ix.metas.iter().rposition(|m| m.role == REM).unwrap();
    let mut extra = ix.metas[last].clone();
    extra.key = k("another");
    ix.metas.push(extra);
    w.refused("two vaults of a mint", ix);
    w.ok(good);
}
