//! property: A09
//! needs: somebody with the metadata account of a program of their own
//! breaks: whoever can upgrade any program at all can install themselves as discount authority of the AMM
//! edit: programs/amm/src/endpoints/create_discount_settings.rs
//!-        constraint = amm.programdata_address()? == Some(amm_metadata.key())
//!+        constraint = amm.programdata_address()?.is_some()
//!=            @ err::acc("AMM program metadata account mismatch"),
fn main() {
    let mut w = W::new();
    let mut meta = w.b.get(&metadata_key());
    std::sync::Arc::make_mut(&mut meta.data)[13..45].copy_from_slice(k("mallory").as_ref());
    w.b.put(k("another program's metadata"), meta);
    let mut ix = create_discount_settings(k("mallory"), k("mallory"));
    w.refused("an outsider", ix.clone());
    ix.set("amm_metadata", k("another program's metadata"));
    w.refused("the owner of another program", ix);
    w.ok(create_discount_settings(k("upgrader"), k("discounter")));
}
