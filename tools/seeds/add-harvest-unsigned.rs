//! property: F11
//! needs: rent for the harvest vault sent to its address beforehand, so that the admin needn't pay
//! breaks: anybody can add a harvest mint in the admin's name
//! edit: programs/farming/src/endpoints/add_harvest.rs
//!-    pub admin: Signer<'info>,
//!+    pub admin: AccountInfo<'info>,
fn main() {
    let mut w = W::new();
    for m in ["stake", "h", "g"] {
        w.mint(m);
    }
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.lamports(harvest_vault(&farm, &k("g")));
    let mut ix = add_harvest(k("admin"), farm, k("g"));
    for m in ix.metas.iter_mut() {
        m.signer = false;
    }
    w.refused("adding a mint without the admin's signature", ix);
    w.ok(add_harvest(k("admin"), farm, k("g")));
}
