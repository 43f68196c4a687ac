//! property: F02
//! needs: unstaking more than the waiting stake but less than everything, with both waiting and earning stake
//! breaks: the waiting stake is written off on top of what is paid out
//! edit: programs/farming/src/models/farmer.rs
//!-                self.staked.amount -= max.amount - self.vested.amount;
//!-                self.vested.amount = 0;
//!+                self.vested.amount = 0;
//!+                self.staked.amount -=
//!+                    cmp::min(max.amount - self.vested.amount, self.staked.amount);
//!=                Ok(max)
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.wallet("admin", "h", 1_000_000);
    w.wallet("alice", "stake", 10_000);
    w.wallet("bob", "stake", 10_000);
    w.wallet("alice", "h", 0);
    w.farmer("alice", farm);
    w.farmer("bob", farm);
    w.stake("alice", farm, "stake", 1000);
    w.snap(farm, 30);
    w.slot(31);
    w.stake("alice", farm, "stake", 500);
    w.stake("bob", farm, "stake", 5000);
    w.ok(stop_farming(k("alice"), wallet("alice", "stake"), farm, 700));
    w.ok(stop_farming(k("alice"), wallet("alice", "stake"), farm, u64::MAX));
    same("wallet", w.amount(wallet("alice", "stake")), 10_000);
}
