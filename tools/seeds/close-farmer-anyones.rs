//! property: F16
//! needs: an empty farmer account and somebody else who closes it
//! breaks: anybody can close an empty farmer account and keep its rent
//! edit: programs/farming/src/endpoints/close_farmer.rs
//!-        constraint = farmer.authority == authority.key()
//!+        constraint = farmer.authority == authority.key()
//!+            || farmer.total_deposited()?.amount == 0
//!=            @ err::acc("Authority does not own this farmer"),
fn main() {
    let mut w = W::new();
    w.mint("stake");
    w.mint("h");
    let farm = w.farm("farm", "stake", &["h"], 10);
    w.wallet("admin", "h", 1_000_000);
    w.wallet("alice", "stake", 10_000);
    w.wallet("bob", "stake", 10_000);
    w.wallet("alice", "h", 0);
    w.farmer("alice", farm);
    w.farmer("bob", farm);
    let mut ix = close_farmer(k("mallory"), farm);
    ix.set("farmer", farmer_pda(&farm, &k("alice")));
    w.refused("closing somebody else's account", ix);
    w.ok(close_farmer(k("alice"), farm));
}
