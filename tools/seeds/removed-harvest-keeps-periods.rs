//! property: F14
//! needs: a harvest mint with periods which is removed, and another mint added later into the slot which became free
//! breaks: the new harvest mint starts with the periods of the removed one, which nobody funded
//! edit: programs/farming/src/endpoints/remove_harvest.rs
//!-        .map(|h| *h = Harvest::default())
//!+        .map(|h| {
//!+            // marks the harvest as uninitialized
//!+            h.mint = Pubkey::default();
//!+            h.vault = Pubkey::default();
//!+        })
//! edit: programs/farming/src/models/farm.rs
//!-            harvest.periods = iter::repeat(HarvestPeriod::default())
//!-                .take(consts::HARVEST_PERIODS_LEN)
//!-                .collect::<Vec<_>>()
//!-                .try_into()
//!-                .map_err(|_| {
//!-                    msg!(
//!-                    "Cannot convert harvest period history vector into array"
//!-                );
//!-                    FarmingError::InvariantViolation
//!-                })?;
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    w.mint("g");
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.wallet("admin", "h", 1_000_000);
    w.wallet("alice", "stake", 1000);
    w.wallet("alice", "h", 0);
    w.farmer("alice", farm);
    w.stake("alice", farm, "stake", 1000);
    w.snap(farm, 20);
    w.slot(30);
    let ix = w.period(farm, "h", 0, 50, 10);
    w.ok(ix);
    w.slot(100);
    w.update("alice", farm);
    let pair = (harvest_vault(&farm, &k("h")), wallet("alice", "h"));
    w.ok(claim_eligible_harvest(k("alice"), farm, &[pair]));
    same("claimed", w.amount(wallet("alice", "h")), 500);
    w.ok(remove_harvest(k("admin"), farm, k("h")));
    w.ok(add_harvest(k("admin"), farm, k("g")));
    let f = w.farm_of(farm);
    let h = f.harvest(&k("g")).unwrap();
    check("no periods", h.periods.iter().all(|p| p.tps == 0 && p.end == 0));
}
