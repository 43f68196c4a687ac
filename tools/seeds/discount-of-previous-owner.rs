//! property: A12
//! needs: a discount that's been granted before being granted again with a larger amount
//! breaks: a discount which exists can only be lowered
//! edit: programs/amm/src/endpoints/put_discount.rs
//!-    let discount = Discount {
//!-        valid_until,
//!-        amount: discount_amount,
//!-    };
//!+    let granted = if should_be_created {
//!+        discount_amount
//!+    } else {
//!+        let existing = Account::<Discount>::try_from(&accs.discount)?;
//!+        existing.amount.min(discount_amount)
//!+    };
//!+    let discount = Discount {
//!+        valid_until,
//!+        amount: granted,
//!+    };
fn main() {
    let mut w = W::new();
    for m in ["x", "y", "z"] {
        w.mint(m);
        w.wallet("alice", m, 1_000_000_000_000);
        w.wallet("bob", m, 1_000_000_000_000);
    }
    w.toll();
    for n in [100_000, 50_000, 900_000] {
        w.ok(put_discount(k("discounter"), true, k("alice"), n, 100));
        same("discount", discount_of(&w.b.get(&discount_pda(&k("alice")))), Some((n, 100)));
    }
}
