//! property: A04
//! needs: a swap in the very slot until which the user's discount is valid
//! breaks: the discount isn't applied any more in its last slot
//! edit: programs/amm/src/models/discount.rs
//!-        Ok(self.amount.permillion > 0 && time <= self.valid_until)
//!+        Ok(self.amount.permillion > 0 && time < self.valid_until)
fn main() {
    let mut w = W::new();
    w.mint("x");
    w.mint("y");
    w.toll();
    w.wallet("alice", "x", 1_000_000_000);
    w.wallet("alice", "y", 1_000_000_000);
    let pool = w.pool("p", &["x", "y"], 0);
    w.ok(set_pool_swap_fee(k("admin"), pool, 10_000));
    w.ok(deposit("alice", "p", &[("x", 1_000_000), ("y", 1_000_000)]));
    w.ok(put_discount(k("discounter"), true, k("alice"), 1_000_000, 100));
    for (slot, want) in [(99, 90909), (100, 90909), (101, 90081)] {
        w.slot(slot);
        let r = w.b.execute(&do_swap("alice", "p", "x", "y", 100_000, 0));
        let c = r.changed.iter().find(|c| c.key == wallet("alice", "y")).unwrap();
        same(&format!("bought in slot {}", slot), tok_amount(&c.post) - tok_amount(&c.pre), want);
    }
}
