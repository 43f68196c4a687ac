//! property: F11
//! needs: somebody who names themselves the new admin and the present admin, who doesn't sign
//! breaks: the signature of the present admin isn't needed
//! edit: programs/farming/src/endpoints/set_farm_owner.rs
//!-    pub admin: Signer<'info>,
//!+    /// CHECK: compared with the farm's admin
//!+    pub admin: AccountInfo<'info>,
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.wallet("admin", "h", 1_000_000);
    w.wallet("alice", "stake", 10_000);
    w.wallet("bob", "stake", 10_000);
    w.wallet("alice", "h", 0);
    w.farmer("alice", farm);
    w.farmer("bob", farm);
    let mut ix = set_farm_owner(k("admin"), k("mallory"), farm);
    for m in ix.metas.iter_mut() {
        if m.key == k("admin") {
            m.signer = false;
        }
    }
    w.refused("without the admin's signature", ix);
    w.ok(set_farm_owner(k("admin"), k("admin2"), farm));
}
