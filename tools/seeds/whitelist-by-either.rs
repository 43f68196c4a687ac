//! property: F11
//! needs: two farms of different admins, the target's one whitelists
//! breaks: the admin of the target farm whitelists compounding into it
//! edit: programs/farming/src/endpoints/whitelist_farm_for_compounding.rs
//!-    if source_farm.admin != accounts.admin.key() {
//!+    let target_admin = if accounts.target_farm.key()
//!+        == accounts.source_farm.key()
//!+    {
//!+        source_farm.admin
//!+    } else {
//!+        accounts.target_farm.load()?.admin
//!+    };
//!+    if ![source_farm.admin, target_admin].contains(&accounts.admin.key()) {
fn main() {
    let mut w = W::new();
    for m in ["stake", "h", "g"] {
        w.mint(m);
    }
    let farm = w.farm("farm", "stake", &["h", "g"], 10);
    for u in ["alice", "bob"] {
        w.wallet(u, "stake", 10_000);
        w.farmer(u, farm);
        for m in ["h", "g"] {
            w.wallet(u, m, 0);
        }
    }
    for m in ["h", "g"] {
        w.wallet("admin", m, 1_000_000);
    }
    let other = w.farm("other", "h", &["g"], 10);
    w.ok(set_farm_owner(k("admin"), k("mallory"), other));
    w.refused("whitelisting by the target's admin", whitelist(k("mallory"), farm, other));
    w.ok(whitelist(k("admin"), farm, other));
}
