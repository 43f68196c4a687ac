//! property: A04
//! needs: a discount valid until a slot beyond 2^32, or a cluster that is past it
//! breaks: slots are compared modulo 2^32, discounts end early
//! edit: programs/amm/src/models/discount.rs
//!-        Ok(self.amount.permillion > 0 && time <= self.valid_until)
//!+        let left = (self.valid_until.slot as u32).checked_sub(time.slot as u32);
//!+        Ok(self.amount.permillion > 0 && left.is_some())
fn main() {
    let mut w = W::new();
    w.mint("x");
    w.mint("y");
    w.toll();
    w.wallet("alice", "x", 1_000_000_000);
    w.wallet("alice", "y", 1_000_000_000);
    let pool = w.pool("p", &["x", "y"], 0);
    w.ok(set_pool_swap_fee(k("admin"), pool, 10_000));
    w.ok(deposit("alice", "p", &[("x", 1_000_000), ("y", 1_000_000)]));
    w.ok(put_discount(k("discounter"), true, k("alice"), 1_000_000, 1 << 32));
    for (slot, want) in [(99, 90909), ((1 << 32) - 1, 90909), (1 << 32, 90909), ((1 << 32) + 1, 90081)] {
        w.slot(slot);
        let r = w.b.execute(&do_swap("alice", "p", "x", "y", 100_000, 0));
        let c = r.changed.iter().find(|c| c.key == wallet("alice", "y")).unwrap();
        same(&format!("bought in slot {}", slot), tok_amount(&c.post) - tok_amount(&c.pre), want);
    }
}
