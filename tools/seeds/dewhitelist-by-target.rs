//! property: F11
//! needs: the admin of the target farm, not of the source farm, removing the farm from the whitelist
//! breaks: the admin of any whitelisted farm can take it off another admin's whitelist (and receives the rent)
//! edit: programs/farming/src/endpoints/dewhitelist_farm_for_compounding.rs
//!-    let source_farm = accounts.source_farm.load()?;
//!=
//!-    if source_farm.admin != accounts.admin.key() {
//!+    let source_admin = accounts.source_farm.load()?.admin;
//!+    let target_admin = accounts.target_farm.load()?.admin;
//!+    let signer = accounts.admin.key();
//!+
//!+    if source_admin != signer && target_admin != signer {
fn main() {
    let mut w = W::new();
    w.mint("stake");
    let a = w.farm("a", "stake", &[], 10);
    let b = w.farm("b", "stake", &[], 10);
    w.ok(set_farm_owner(k("admin"), k("admin2"), b));
    w.ok(whitelist(k("admin"), a, b));
    w.refused("the target's admin", dewhitelist(k("admin2"), a, b));
    w.refused("the source's admin for the other direction", dewhitelist(k("admin"), b, a));
    w.ok(dewhitelist(k("admin"), a, b));
}
