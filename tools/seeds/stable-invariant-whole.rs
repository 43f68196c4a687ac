//! property: A13
//! needs: a stable pool of few tokens, swaps after the invariant's been recomputed
//! breaks: the invariant is cut to a whole number, the pool gives away the fraction, again and again
//! edit: programs/amm/src/math/stable_curve_invariant.rs
//!-        new_val.try_mul(self.scl_down_coef)
//!+        let invariant = new_val.try_mul(self.scl_down_coef)?;
//!+        Ok(Decimal::from(invariant.try_floor()?))
/// the invariant of two reserves, by bisection
fn invariant(amp: f64, r: &[u64]) -> f64 {
    let (x, y) = (r[0] as f64, r[1] as f64);
    let (mut lo, mut hi) = (0.0, x + y);
    for _ in 0..200 {
        let d = (lo + hi) / 2.0;
        if amp * 4.0 * (x + y) + d > amp * d * 4.0 + d * d * d / (4.0 * x * y) {
            lo = d;
        } else {
            hi = d;
        }
    }
    lo
}

fn main() {
    let mut w = W::new();
    w.mint("x");
    w.mint("y");
    w.toll();
    w.wallet("alice", "x", 1_000_000);
    w.wallet("alice", "y", 1_000_000);
    w.pool("p", &["x", "y"], 10);
    w.ok(deposit("alice", "p", &[("x", 3000), ("y", 1000)]));
    for n in [1, 2, 3, 5, 7, 11, 40] {
        for (sell, buy) in [("x", "y"), ("y", "x")] {
            for _ in 0..20 {
                let before = invariant(10.0, &w.reserves("p"));
                w.run(do_swap("alice", "p", sell, buy, n, 0));
                let after = invariant(10.0, &w.reserves("p"));
                check("no swap lowers the invariant", after > before - 1e-5);
            }
        }
    }
}
