//! property: F01
//! needs: an owner who asks for more than they have staked while the vault holds enough tokens of other farmers
//! breaks: the owner is paid what they asked for instead of what they had
//! edit: programs/farming/src/endpoints/stop_farming.rs
//!-    let unstake = accounts.farmer.unstake(unstake_max)?;
//!+    let mut unstake = accounts.farmer.unstake(unstake_max)?;
//!+    if unstake_max.amount != u64::MAX {
//!+        // "everything" is the only request which is not to be taken literally
//!+        unstake = unstake_max;
//!+    }
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.wallet("admin", "h", 1_000_000);
    w.wallet("alice", "stake", 10_000);
    w.wallet("bob", "stake", 10_000);
    w.wallet("alice", "h", 0);
    w.farmer("alice", farm);
    w.farmer("bob", farm);
    w.stake("alice", farm, "stake", 1000);
    w.stake("bob", farm, "stake", 5000);
    w.ok(stop_farming(k("alice"), wallet("alice", "stake"), farm, 1500));
    same("wallet", w.amount(wallet("alice", "stake")), 10_000);
    same("vault", w.amount(stake_vault(&farm)), 5000);
}
