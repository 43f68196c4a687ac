//! property: A14
//! needs: anything but the first deposit
//! breaks: the LP supply is only read again if there was none, the log shows the one before
//! edit: programs/amm/src/misc.rs
//!-    lp_mint.reload()?;
//!+    if lp_mint.supply == 0 {
//!+        lp_mint.reload()?;
//!+    }
fn logged(w: &mut W, ix: Ix) {
    let r = w.b.run(&ix);
    check("success", r.ok);
    let told: Vec<String> = r.logs.iter().filter(|l| l.starts_with("lp-supply=")).cloned().collect();
    same("log", told, vec![format!("lp-supply={}", w.supply("p"))]);
}
fn main() {
    let mut w = W::new();
    for m in ["x", "y"] {
        w.mint(m);
        w.wallet("alice", m, 1_000_000_000);
        w.wallet("bob", m, 1_000_000_000);
    }
    w.toll();
    let pool = w.pool("p", &["x", "y"], 0);
    logged(&mut w, deposit("alice", "p", &[("x", 1_000_000), ("y", 1_000_000)]));
    logged(&mut w, deposit("bob", "p", &[("x", 1_000_000), ("y", 1_000_000)]));
    logged(&mut w, do_swap("bob", "p", "x", "y", 10_000, 1));
    w.ok(set_pool_swap_fee(k("admin"), pool, 10_000));
    logged(&mut w, do_swap("bob", "p", "x", "y", 10_000, 1));
    let lp = w.lp("bob", "p");
    logged(&mut w, redeem("bob", "p", lp, &[("x", 0), ("y", 0)]));
}
