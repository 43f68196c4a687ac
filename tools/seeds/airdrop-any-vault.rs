//! property: F12
//! needs: an airdrop naming a token account of the payer's own instead of the harvest vault
//! breaks: an airdrop credits the farmer with tokens which never reach the farm's vault
//! edit: programs/farming/src/endpoints/airdrop.rs
//!-        mut,
//!-        seeds = [
//!-            Harvest::VAULT_PREFIX,
//!-            farmer.farm.as_ref(),
//!-            harvest_wallet.mint.as_ref(),
//!-        ],
//!-        bump,
//!+        mut,
//!+        constraint = harvest_vault.key() != harvest_wallet.key()
//!+            @ err::acc("Vault and wallet must differ"),
//!=    )]
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.wallet("bob", "h", 1000);
    w.wallet("mallory", "h", 0);
    let farmer = w.farmer("alice", farm);
    let mut ix = airdrop(k("bob"), farm, farmer, wallet("bob", "h"), k("h"), 10);
    w.ok(ix.clone());
    same("credited", w.harvest("alice", farm, "h"), 10);
    ix.set("harvest_vault", wallet("mallory", "h"));
    w.refused("another vault", ix);
}
