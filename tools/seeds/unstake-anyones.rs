//! property: F11
//! needs: somebody unstaking who is not the owner of the farmer account they name
//! breaks: anybody can unstake any farmer's tokens into their own wallet
//! edit: programs/farming/src/endpoints/stop_farming.rs
//!=    #[account(
//!=        mut,
//!=        seeds = [
//!=            Farmer::ACCOUNT_PREFIX,
//!=            farm.key().as_ref(),
//!-            authority.key().as_ref(),
//!+            farmer.authority.as_ref(),
//!=        ],
fn main() {
    let mut w = W::new();
    w.mint("stake");
    let farm = w.farm("farm", "stake", &[], 10);
    w.wallet("alice", "stake", 1000);
    w.wallet("mallory", "stake", 0);
    let farmer = w.farmer("alice", farm);
    w.stake("alice", farm, "stake", 1000);
    let mut ix = stop_farming(k("mallory"), wallet("mallory", "stake"), farm, 10);
    ix.set("farmer", farmer);
    w.refused("unstaking for somebody else", ix);
    w.ok(stop_farming(k("alice"), wallet("alice", "stake"), farm, 1000));
    same("wallet", w.amount(wallet("alice", "stake")), 1000);
}
