//! property: A03
//! needs: a stable pool with a small amplifier whose reserves are far apart
//! breaks: the invariant is left far above the root, so traders get too little
//! edit: programs/amm/src/math/stable_curve_invariant.rs
//!-const MAX_ITERATIONS: usize = 64;
//!+const MAX_ITERATIONS: usize = 4;
fn main() {
    let mut w = W::new();
    w.mint("x");
    w.mint("y");
    w.toll();
    w.wallet("alice", "x", 10_000_000_000);
    w.wallet("alice", "y", 10_000_000_000);
    w.pool("p", &["x", "y"], 1);
    w.ok(deposit("alice", "p", &[("x", 10_000_000), ("y", 1_000)]));
    let before = w.amount(wallet("alice", "y"));
    w.ok(do_swap("alice", "p", "y", "x", 999, 0));
    let _ = before;
    // the root of 4(x + y) + D = 4D + D^3 / 4xy, by bisection
    let (x, y) = (10_000_000f64, 1_000f64);
    let f = |d: f64, x: f64, y: f64| d * d * d / (4.0 * x * y) + 3.0 * d - 4.0 * (x + y);
    let (mut lo, mut hi) = (0.0, x + y);
    for _ in 0..200 {
        let m = (lo + hi) / 2.0;
        if f(m, x, y) > 0.0 { hi = m } else { lo = m }
    }
    let d = lo;
    let (mut a, mut b) = (0.0, x);
    for _ in 0..200 {
        let m = (a + b) / 2.0;
        // more of x: the polynomial falls
        if f(d, m, y + 999.0) > 0.0 { a = m } else { b = m }
    }
    let want = x - b;
    let got = 10_000_000.0 - w.reserves("p")[0] as f64;
    check("the payout is right", (got - want).abs() < 0.01 * want + 2.0);
}
