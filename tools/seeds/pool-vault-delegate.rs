//! property: A08
//! needs: a pool created from a vault with a delegate, in which the delegated amount is used up at the moment
//! breaks: a pool can be created from a vault somebody else is a delegate of
//! edit: programs/amm/src/endpoints/create_pool.rs
//!-        if vault.delegate.is_some() {
//!+        if vault.delegate.is_some() && vault.delegated_amount <= vault.amount {
fn main() {
    use std::sync::Arc;
    let mut w = W::new();
    w.mint("x");
    w.mint("y");
    w.toll();
    let ix = w.prepare_pool("p", &["x", "y"], 0);
    let mut a = w.b.get(&vault("p", "x"));
    let d = Arc::make_mut(&mut a.data);
    d[72] = 1;
    d[76..108].copy_from_slice(k("mallory").as_ref());
    d[121..129].copy_from_slice(&1000u64.to_le_bytes());
    let clean = w.b.get(&vault("p", "x"));
    w.b.put(vault("p", "x"), a);
    w.refused("a vault with a delegate", ix.clone());
    w.b.put(vault("p", "x"), clean);
    w.ok(ix);
}
