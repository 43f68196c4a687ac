//! property: A12
//! needs: a discount put for a user who already has one which is valid for longer
//! breaks: a renewed discount keeps the validity of the one before instead of what was granted
//! edit: programs/amm/src/endpoints/put_discount.rs
//!-    let discount = Discount {
//!-        valid_until,
//!-        amount: discount_amount,
//!-    };
//!+    let valid_until = if should_be_created {
//!+        valid_until
//!+    } else {
//!+        let previous = Account::<Discount>::try_from(&accs.discount)?;
//!+        previous.valid_until.max(valid_until)
//!+    };
//!+    let discount = Discount {
//!+        valid_until,
//!+        amount: discount_amount,
//!+    };
fn main() {
    let mut w = W::new();
    w.toll();
    for (n, until) in [(500_000, 100), (300_000, 200), (1_000_000, 50)] {
        w.ok(put_discount(k("discounter"), true, k("alice"), n, until));
        let d = discount_of(&w.b.get(&discount_pda(&k("alice"))));
        same("discount", d, Some((n, until)));
    }
}
