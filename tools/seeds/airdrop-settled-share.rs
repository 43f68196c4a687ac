//! property: F15
//! needs: a farmer who hasn't claimed an earlier airdrop or harvest of the mint
//! breaks: an airdrop replaces what the farmer could claim before if it is larger
//! edit: programs/farming/src/endpoints/airdrop.rs
//!-    harvest.amount = harvest
//!-        .amount
//!-        .checked_add(airdrop.amount)
//!-        .ok_or(FarmingError::MathOverflow)?;
//!+    if airdrop.amount > u64::MAX - harvest.amount {
//!+        return Err(error!(FarmingError::MathOverflow));
//!+    }
//!+    harvest.amount |= airdrop.amount;
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.wallet("admin", "h", 1_000_000);
    w.wallet("alice", "stake", 10_000);
    w.wallet("bob", "stake", 10_000);
    w.wallet("alice", "h", 0);
    w.farmer("alice", farm);
    w.farmer("bob", farm);
    w.wallet("bob", "h", 1000);
    for (n, want) in [(64, 64), (32, 96), (32, 128)] {
        w.ok(airdrop(k("bob"), farm, farmer_pda(&farm, &k("alice")), wallet("bob", "h"), k("h"), n));
        same("claimable", w.harvest("alice", farm, "h"), want);
    }
}
