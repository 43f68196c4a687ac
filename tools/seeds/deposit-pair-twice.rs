//! property: A11
//! needs: a deposit which lists the pair of vault and wallet of one mint twice, in place of another mint's
//! breaks: tokens of one mint are deposited twice and the reserve of another is credited with tokens its vault never gets
//! edit: programs/amm/src/endpoints/deposit_liquidity.rs
//!-    if unique_mints_in_rem_accounts != accs.pool.dimension as usize {
//!+    if unique_mints_in_rem_accounts > accs.pool.dimension as usize {
fn main() {
    let mut w = W::new();
    for m in ["x", "y"] {
        w.mint(m);
        w.wallet("alice", m, 1_000_000_000);
        w.wallet("bob", m, 1_000_000_000);
    }
    w.toll();
    w.pool("p", &["x", "y"], 0);
    w.ok(deposit("alice", "p", &[("x", 1_000_000), ("y", 1_000_000)]));
    let mut ix = deposit("bob", "p", &[("x", 1000), ("y", 1000)]);
    // x and x instead of x and y
    let n = ix.metas.len();
    let (v, k) = (vault("p", "x"), wallet("bob", "x"));
    ix.metas[n - 4].key = v;
    ix.metas[n - 3].key = k;
    ix.metas[n - 2].key = v;
    ix.metas[n - 1].key = k;
    w.refused("a deposit without tokens y", ix);
    for (m, r) in ["x", "y"].iter().zip(w.reserves("p")) {
        same("vault", w.amount(vault("p", m)), r);
    }
}
