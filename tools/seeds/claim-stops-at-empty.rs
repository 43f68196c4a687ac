//! property: F07
//! needs: a claim which lists a vault with something to claim before one with nothing
//! breaks: what was paid stays on record and can be claimed again
//! edit: programs/farming/src/endpoints/claim_eligible_harvest.rs
//!-            *eligible_harvest = TokenAmount::new(0);
//!-        }
//!+            *eligible_harvest = TokenAmount::new(0);
//!+        } else {
//!+            msg!("No harvest of mint '{}', done", mint);
//!+            return Ok(());
//!+        }
fn main() {
    let mut w = W::new();
    for m in ["stake", "h", "g"] {
        w.mint(m);
    }
    let farm = w.farm("farm", "stake", &["h", "g"], 10);
    for u in ["alice", "bob"] {
        w.wallet(u, "stake", 10_000);
        w.farmer(u, farm);
        for m in ["h", "g"] {
            w.wallet(u, m, 0);
        }
    }
    for m in ["h", "g"] {
        w.wallet("admin", m, 1_000_000);
    }
    w.stake("alice", farm, "stake", 1000);
    w.stake("bob", farm, "stake", 1000);
    w.snap(farm, 30);
    let ix = w.period(farm, "h", 0, 10, 10);
    w.ok(ix);
    w.slot(60);
    w.update("alice", farm);
    w.update("bob", farm);
    let pair = |m: &str| (harvest_vault(&farm, &k(m)), wallet("alice", m));
    for _ in 0..2 {
        w.ok(claim_eligible_harvest(k("alice"), farm, &[pair("h"), pair("g")]));
        same("claimed", w.amount(wallet("alice", "h")), 50);
    }
}
