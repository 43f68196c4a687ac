//! property: A01
//! needs: a redemption which lists fewer vaults than the pool has reserves
//! breaks: LP tokens are burnt but one of the tokens isn't paid out, though taken from its reserve
//! edit: programs/amm/src/endpoints/redeem_liquidity.rs
//!-    if unique_mints_in_rem_accounts != accs.pool.dimension as usize {
//!+    if unique_mints_in_rem_accounts > accs.pool.dimension as usize {
//! edit: programs/amm/src/endpoints/redeem_liquidity.rs
//!-    if token_vaults_wallets.len() != expected_rem_accs_len {
//!+    if token_vaults_wallets.len() > expected_rem_accs_len {
fn main() {
    let mut w = W::new();
    for m in ["x", "y"] {
        w.mint(m);
        w.wallet("alice", m, 1_000_000_000);
    }
    w.toll();
    w.pool("p", &["x", "y"], 0);
    w.ok(deposit("alice", "p", &[("x", 1_000_000), ("y", 1_000_000)]));
    let mut ix = redeem("alice", "p", 1000, &[("x", 0), ("y", 0)]);
    ix.metas.pop();
    ix.metas.pop();
    w.refused("a redemption which leaves out a token", ix);
    for (m, r) in ["x", "y"].iter().zip(w.reserves("p")) {
        same("vault", w.amount(vault("p", m)), r);
    }
}
