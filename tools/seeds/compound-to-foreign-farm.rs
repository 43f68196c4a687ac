//! property: F13
//! needs: compounding across farms with a target farmer which belongs to a third farm that isn't whitelisted
//! breaks: the harvest is put into the vault of one farm but recorded as stake of a farmer of another farm
//! edit: programs/farming/src/endpoints/compound_across_farms.rs
//!-        constraint = target_farmer.farm == target_farm.key()
//!+        constraint = target_farmer.farm != source_farm.key()
//!=            @ err::acc("Target farmer is set up for a different farm"),
fn main() {
    let mut w = W::new();
    w.mint("s");
    let a = w.farm("a", "s", &["s"], 10);
    let b = w.farm("b", "s", &[], 10);
    let c = w.farm("c", "s", &[], 10);
    w.ok(whitelist(k("admin"), a, b));
    w.wallet("admin", "s", 1_000_000);
    w.wallet("alice", "s", 1000);
    let fa = w.farmer("alice", a);
    let fb = w.farmer("alice", b);
    let fc = w.farmer("alice", c);
    w.stake("alice", a, "s", 1000);
    w.snap(a, 20);
    w.slot(30);
    let ix = w.period(a, "s", 0, 50, 10);
    w.ok(ix);
    w.slot(40);
    w.refused("a farmer of a third farm", compound_across_farms(a, b, fa, fc, k("s")));
    w.ok(compound_across_farms(a, b, fa, fb, k("s")));
    same("compounded", w.farmer_of("alice", b).vested, 100);
}
