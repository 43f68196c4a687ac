//! property: F13
//! needs: compounding into a farm where all of the user's stake is still waiting although a snapshot was taken
//! breaks: stake which is ready to earn is made to wait again
//! edit: programs/farming/src/endpoints/compound_across_farms.rs
//!-    accounts
//!-        .target_farmer
//!-        .check_vested_period_and_update_harvest(
//!-            &target_farm,
//!-            current_slot.previous(),
//!-        )?;
//!+    if accounts.target_farmer.staked.amount != 0 {
//!+        accounts
//!+            .target_farmer
//!+            .check_vested_period_and_update_harvest(
//!+                &target_farm,
//!+                current_slot.previous(),
//!+            )?;
//!+    }
fn main() {
    let mut w = W::new();
    for m in ["stake", "h", "g"] {
        w.mint(m);
    }
    let farm = w.farm("farm", "stake", &["h", "g"], 10);
    for u in ["alice", "bob"] {
        w.wallet(u, "stake", 10_000);
        w.farmer(u, farm);
        for m in ["h", "g"] {
            w.wallet(u, m, 0);
        }
    }
    for m in ["h", "g"] {
        w.wallet("admin", m, 1_000_000);
    }
    let other = w.farm("other", "h", &["g"], 10);
    w.farmer("alice", other);
    w.wallet("alice", "h", 500);
    w.ok(whitelist(k("admin"), farm, other));
    w.stake("alice", farm, "stake", 1000);
    w.stake("alice", other, "h", 500);
    w.snap(farm, 30);
    w.snap(other, 30);
    let ix = w.period(farm, "h", 0, 10, 10);
    w.ok(ix);
    let ix = w.period(other, "g", 0, 30, 10);
    w.ok(ix);
    w.slot(50);
    let f = |farm: &Pubkey| farmer_pda(farm, &k("alice"));
    w.ok(compound_across_farms(farm, other, f(&farm), f(&other), k("h")));
    same("stake", w.amount(stake_vault(&other)), 600);
    w.slot(60);
    w.update("alice", other);
    same("harvest", w.harvest("alice", other, "g"), 300);
}
