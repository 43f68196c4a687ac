From 899d1267d5622922397596d4910e350a5660b8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 01/12] fix: keep harvest periods the snapshot history still
 covers

The guard against overwriting a harvest period within the snapshot history
was compiled in only with the feature "prod", which this crate does not
have. Production is the build without the feature "dev".
---
 programs/farming/src/models/farm.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/programs/farming/src/models/farm.rs b/programs/farming/src/models/farm.rs
index 1a0fd2a..dc3cd6f 100644
--- a/programs/farming/src/models/farm.rs
+++ b/programs/farming/src/models/farm.rs
@@ -272,8 +272,10 @@ impl Farm {
         // already initialized as a fixed number length array of default
         // elements so unwrap `.last()` is safe
         let oldest_period = harvest.periods.last().unwrap();
-        let is_oldest_period_initialized = if cfg!(any(feature = "prod", test))
-        {
+        let is_oldest_period_initialized = if cfg!(any(
+            not(feature = "dev"),
+            test
+        )) {
             // if the oldest period is within the current snapshot history,
             // we are unable to update its value, the admin already passed the
             // allowed max number of possible configuration updates
-- 
2.43.0


From adf7ac9d42317a892ebcd1569869cebcf8605a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 02/12] fix: find the first snapshot after a slot older than
 the history

Once the snapshot ring buffer was overwritten past the slot at which a farmer
vested, no snapshot was found and the vested tokens never started earning.
---
 programs/farming/src/models/farm.rs | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/programs/farming/src/models/farm.rs b/programs/farming/src/models/farm.rs
index dc3cd6f..95b9970 100644
--- a/programs/farming/src/models/farm.rs
+++ b/programs/farming/src/models/farm.rs
@@ -337,12 +337,15 @@ impl Farm {
             .skip(inverted_tip)
             .take(consts::SNAPSHOTS_LEN)
             .find(|(_, s)| s.started_at <= slot)
-            .map(|(index, _)| index)?;
+            .map(|(index, _)| index);
 
-        Some(if pos == consts::SNAPSHOTS_LEN - 1 {
-            self.snapshots.ring_buffer[0]
-        } else {
-            self.snapshots.ring_buffer[pos + 1]
+        Some(match pos {
+            // every snapshot in the history started after the given slot
+            None => self.oldest_snapshot(),
+            Some(pos) if pos == consts::SNAPSHOTS_LEN - 1 => {
+                self.snapshots.ring_buffer[0]
+            }
+            Some(pos) => self.snapshots.ring_buffer[pos + 1],
         })
     }
 
-- 
2.43.0


From aa58b2b8cbc60cf521bce621281eef22a7a2b24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 03/12] fix: settle the target farmer before compounding into
 its stake

Adding to the vested tokens resets the vesting slot. The tokens of the target
farmer which were already eligible for harvest lost it.
---
 programs/farming/src/endpoints/compound_across_farms.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/programs/farming/src/endpoints/compound_across_farms.rs b/programs/farming/src/endpoints/compound_across_farms.rs
index 3c3e13c..bfce65b 100644
--- a/programs/farming/src/endpoints/compound_across_farms.rs
+++ b/programs/farming/src/endpoints/compound_across_farms.rs
@@ -94,6 +94,10 @@ pub fn handle(ctx: Context<CompoundAcrossFarms>) -> Result<()> {
     accounts
         .source_farmer
         .check_vested_period_and_update_harvest(&source_farm, current_slot)?;
+    // the vesting period of the target farmer is about to be reset
+    accounts
+        .target_farmer
+        .check_vested_period_and_update_harvest(&target_farm, current_slot)?;
 
     // get all harvestable tokens of the farmer and add them to their vested
     // tokens
-- 
2.43.0


From f197901e44fa0758ee847553c41f09f28433dedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 04/12] fix: don't postpone vesting tokens when nothing is
 compounded

Compounding is permissionless. With no harvest to compound, it still reset the
slot at which the farmer's tokens were vested.
---
 programs/farming/src/models/farmer.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/programs/farming/src/models/farmer.rs b/programs/farming/src/models/farmer.rs
index de065ab..34509a8 100644
--- a/programs/farming/src/models/farmer.rs
+++ b/programs/farming/src/models/farmer.rs
@@ -103,6 +103,11 @@ impl Farmer {
         current_slot: Slot,
         tokens: TokenAmount,
     ) -> Result<()> {
+        if tokens.amount == 0 {
+            // nothing to vest, don't postpone what's already vesting
+            return Ok(());
+        }
+
         self.vested_at = current_slot;
         self.vested.amount = self
             .vested
-- 
2.43.0


From 4411c21345860382a929b2412022fed947cc6eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 05/12] fix: calculate harvest only for slots which are over

Harvest was calculated including the current slot. Another snapshot can still
be taken in that slot, which changes how is its harvest shared. Then moving
the vested funds rewound the calculation to the start of that snapshot and the
slot was credited twice, so the harvest vault could run short, or, if there
was an active harvest period, the calculation over the empty range failed with
MathOverflow and the farmer could not unstake.
---
 .../src/endpoints/compound_across_farms.rs    | 10 ++++-
 .../src/endpoints/compound_same_farm.rs       |  7 ++--
 .../farming/src/endpoints/start_farming.rs    |  7 ++--
 .../farming/src/endpoints/stop_farming.rs     |  7 ++--
 programs/farming/src/lib.rs                   |  7 +++-
 programs/farming/src/models.rs                |  9 ++++
 programs/farming/src/models/farmer.rs         | 41 ++++++++++---------
 7 files changed, 55 insertions(+), 33 deletions(-)

diff --git a/programs/farming/src/endpoints/compound_across_farms.rs b/programs/farming/src/endpoints/compound_across_farms.rs
index bfce65b..4722af4 100644
--- a/programs/farming/src/endpoints/compound_across_farms.rs
+++ b/programs/farming/src/endpoints/compound_across_farms.rs
@@ -93,11 +93,17 @@ pub fn handle(ctx: Context<CompoundAcrossFarms>) -> Result<()> {
 
     accounts
         .source_farmer
-        .check_vested_period_and_update_harvest(&source_farm, current_slot)?;
+        .check_vested_period_and_update_harvest(
+            &source_farm,
+            current_slot.previous(),
+        )?;
     // the vesting period of the target farmer is about to be reset
     accounts
         .target_farmer
-        .check_vested_period_and_update_harvest(&target_farm, current_slot)?;
+        .check_vested_period_and_update_harvest(
+            &target_farm,
+            current_slot.previous(),
+        )?;
 
     // get all harvestable tokens of the farmer and add them to their vested
     // tokens
diff --git a/programs/farming/src/endpoints/compound_same_farm.rs b/programs/farming/src/endpoints/compound_same_farm.rs
index d9a73ed..dfae1d1 100644
--- a/programs/farming/src/endpoints/compound_same_farm.rs
+++ b/programs/farming/src/endpoints/compound_same_farm.rs
@@ -73,9 +73,10 @@ pub fn handle(ctx: Context<CompoundSameFarm>) -> Result<()> {
     let farm = accounts.farm.load()?;
     let current_slot = Slot::current()?;
 
-    accounts
-        .farmer
-        .check_vested_period_and_update_harvest(&farm, current_slot)?;
+    accounts.farmer.check_vested_period_and_update_harvest(
+        &farm,
+        current_slot.previous(),
+    )?;
 
     // get all harvestable tokens of the farmer and add them to their vested
     // tokens
diff --git a/programs/farming/src/endpoints/start_farming.rs b/programs/farming/src/endpoints/start_farming.rs
index e606522..094d1d1 100644
--- a/programs/farming/src/endpoints/start_farming.rs
+++ b/programs/farming/src/endpoints/start_farming.rs
@@ -57,9 +57,10 @@ pub fn handle(ctx: Context<StartFarming>, stake: TokenAmount) -> Result<()> {
     let farm = accounts.farm.load()?;
     let current_slot = Slot::current()?;
 
-    accounts
-        .farmer
-        .check_vested_period_and_update_harvest(&farm, current_slot)?;
+    accounts.farmer.check_vested_period_and_update_harvest(
+        &farm,
+        current_slot.previous(),
+    )?;
 
     // marks the funds as vested, they won't be eligible for harvest until the
     // next snapshot
diff --git a/programs/farming/src/endpoints/stop_farming.rs b/programs/farming/src/endpoints/stop_farming.rs
index 1f2e659..09a4999 100644
--- a/programs/farming/src/endpoints/stop_farming.rs
+++ b/programs/farming/src/endpoints/stop_farming.rs
@@ -52,9 +52,10 @@ pub fn handle(
 
     let farm = accounts.farm.load()?;
 
-    accounts
-        .farmer
-        .check_vested_period_and_update_harvest(&farm, Slot::current()?)?;
+    accounts.farmer.check_vested_period_and_update_harvest(
+        &farm,
+        Slot::current()?.previous(),
+    )?;
 
     // removes the amount of tokens to be unstaked from the
     let unstake = accounts.farmer.unstake(unstake_max)?;
diff --git a/programs/farming/src/lib.rs b/programs/farming/src/lib.rs
index 4a56e86..74f7459 100644
--- a/programs/farming/src/lib.rs
+++ b/programs/farming/src/lib.rs
@@ -93,7 +93,10 @@ pub mod farming {
     pub fn update_eligible_harvest(
         ctx: Context<UpdateEligibleHarvest>,
     ) -> Result<()> {
-        endpoints::update_eligible_harvest::handle(ctx, Slot::current()?)
+        endpoints::update_eligible_harvest::handle(
+            ctx,
+            Slot::current()?.previous(),
+        )
     }
 
     /// Updates eligible harvest until given slot inclusive.
@@ -103,7 +106,7 @@ pub mod farming {
     ) -> Result<()> {
         endpoints::update_eligible_harvest::handle(
             ctx,
-            Slot::current()?.min(until),
+            Slot::current()?.previous().min(until),
         )
     }
 
diff --git a/programs/farming/src/models.rs b/programs/farming/src/models.rs
index 30e8659..9570d1f 100644
--- a/programs/farming/src/models.rs
+++ b/programs/farming/src/models.rs
@@ -56,4 +56,13 @@ impl Slot {
             slot: Clock::get()?.slot,
         })
     }
+
+    /// The latest slot for which harvest can be calculated. Another snapshot
+    /// can still be taken in this (the next) slot, hence how is the harvest of
+    /// that slot shared is not known until it's over.
+    pub fn previous(&self) -> Self {
+        Self {
+            slot: self.slot.saturating_sub(1),
+        }
+    }
 }
diff --git a/programs/farming/src/models/farmer.rs b/programs/farming/src/models/farmer.rs
index 34509a8..f5dcdd8 100644
--- a/programs/farming/src/models/farmer.rs
+++ b/programs/farming/src/models/farmer.rs
@@ -36,7 +36,7 @@ pub struct Farmer {
     pub vested_at: Slot,
     /// The slot from which the we can start calculating the reamining eligible
     /// harvest from. In other words, upon calculating the available harvest
-    /// for the farmer, we set this value to the current slot + 1
+    /// for the farmer until some slot, we set this value to that slot + 1
     ///
     /// # Important
     /// This value is inclusive.
@@ -145,11 +145,11 @@ impl Farmer {
     }
 
     /// Moves funds from vested to staked if possible and then calculates
-    /// harvest since last call.
+    /// harvest since last call until given slot (inclusive).
     pub fn check_vested_period_and_update_harvest(
         &mut self,
         farm: &Farm,
-        current_slot: Slot,
+        until: Slot,
     ) -> Result<()> {
         if self.vested.amount != 0 {
             // if there was a new snapshot, vested funds are ready to be
@@ -164,14 +164,16 @@ impl Farmer {
                 // calculate harvest for which the vested tokens should not be
                 // counted yet, ie. all harvest until first snapshot after
                 // vested at slot
-                let farmer_harvests = self.eligible_harvest_until(
-                    farm,
-                    Slot::new(snapshot.started_at.slot - 1),
-                )?;
-                self.set_harvests(farmer_harvests)?;
-                // and take a note that we calculated harvest until this
-                // point
-                self.calculate_next_harvest_from = snapshot.started_at;
+                if self.calculate_next_harvest_from < snapshot.started_at {
+                    let farmer_harvests = self.eligible_harvest_until(
+                        farm,
+                        Slot::new(snapshot.started_at.slot - 1),
+                    )?;
+                    self.set_harvests(farmer_harvests)?;
+                    // and take a note that we calculated harvest until this
+                    // point
+                    self.calculate_next_harvest_from = snapshot.started_at;
+                }
 
                 // mark funds which are beyond vesting period as staked
                 self.staked.amount = self
@@ -183,8 +185,8 @@ impl Farmer {
             }
         }
 
-        // and then use the staked funds to calculate harvest until this slot
-        self.update_eligible_harvest(farm, current_slot)?;
+        // and then use the staked funds to calculate harvest until given slot
+        self.update_eligible_harvest(farm, until)?;
 
         Ok(())
     }
@@ -211,22 +213,21 @@ impl Farmer {
     fn update_eligible_harvest(
         &mut self,
         farm: &Farm,
-        current_slot: Slot,
+        until: Slot,
     ) -> Result<()> {
         // there is no eligible harvest available if the last calculation
-        // has happened on the current slot or after, therefore we skip
-        if self.calculate_next_harvest_from >= current_slot {
+        // already included the given slot, therefore we skip
+        if self.calculate_next_harvest_from > until {
             return Ok(());
         }
 
-        let farmer_harvests =
-            self.eligible_harvest_until(farm, current_slot)?;
+        let farmer_harvests = self.eligible_harvest_until(farm, until)?;
 
         // convert the map back into an array
         self.set_harvests(farmer_harvests)?;
 
-        // plus one because calculation is _inclusive_ of the current slot
-        self.calculate_next_harvest_from.slot = current_slot.slot + 1;
+        // plus one because calculation is _inclusive_ of the given slot
+        self.calculate_next_harvest_from.slot = until.slot + 1;
 
         Ok(())
     }
-- 
2.43.0


From 842b822aaf146bc08496bb3dcbb0dbb005940bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:41 +0000
Subject: [PATCH 06/12] fix: mint LP tokens for the smallest share among the
 deposited tokens

The amount deposited to each reserve is rounded up to whole tokens, but the LP
tokens were calculated from the first reserve only. With few tokens in that
reserve a deposit (or the toll) of one token gave a large share of the pool.
---
 programs/amm/src/models/pool.rs | 39 ++++++++++++++++++++++-----------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index d9d5cf8..6007145 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -451,13 +451,18 @@ impl Pool {
         }
     }
 
-    /// Any given token in the pool can be used to compute the amount
+    /// Any given token in the pool could be used to compute the amount
     /// of lp tokens to be distributed with a given deposit, as long as the
     /// ratios correspond to the ratios present in the pool. We compute
     /// the lp tokens to be distributed with a simple 'rule of 3'. For any given
     /// token in the pool x1, we multiple the deposit delta_x1 with the amount
     /// of lp tokens in supply, and then divide the by the current reserve
     /// amount x1.
+    ///
+    /// However, the deposits are rounded to whole tokens, and the fewer tokens
+    /// a reserve has the more the ratio of its deposit is off. We use the
+    /// smallest one, so that nobody receives a larger share of the pool than
+    /// what they deposit of each token.
     fn get_eligible_lp_tokens(
         &self,
         tokens_deposited: &BTreeMap<Pubkey, TokenAmount>,
@@ -466,20 +471,28 @@ impl Pool {
         debug_assert_ne!(lp_mint_supply, TokenAmount::new(0));
         debug_assert_eq!(tokens_deposited.len(), self.dimension as usize);
 
-        let any_reserve = self.reserves[0];
-        let reserve_deposit = tokens_deposited
-            .get(&any_reserve.mint)
+        let tokens = self
+            .reserves()
+            .iter()
+            .map(|reserve| {
+                let reserve_deposit = tokens_deposited
+                    .get(&reserve.mint)
+                    .ok_or(AmmError::InvariantViolation)?;
+
+                Ok(TokenAmount::new(
+                    try_mul_div(
+                        Decimal::from(lp_mint_supply.amount),
+                        Decimal::from(reserve_deposit.amount),
+                        Decimal::from(reserve.tokens.amount),
+                    )?
+                    .try_floor()?,
+                ))
+            })
+            .collect::<Result<Vec<_>>>()?
+            .into_iter()
+            .min()
             .ok_or(AmmError::InvariantViolation)?;
 
-        let tokens = TokenAmount::new(
-            try_mul_div(
-                Decimal::from(lp_mint_supply.amount),
-                Decimal::from(reserve_deposit.amount),
-                Decimal::from(any_reserve.tokens.amount),
-            )?
-            .try_floor()?,
-        );
-
         Ok(if tokens.amount == 0 {
             None
         } else {
-- 
2.43.0


From b1d8760f66ae2c8c307eca17b2bde06e1dedf8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 07/12] fix: never take more than the maximum in a deposit

---
 programs/amm/src/models/pool.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index 6007145..8c0dfde 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -240,6 +240,9 @@ impl Pool {
             let tokens_to_deposit = reserves
                 .into_iter()
                 .map(|(mint, token_reserve)| {
+                    let max_token = max_tokens
+                        .get(&mint)
+                        .ok_or(AmmError::InvariantViolation)?;
                     let amount = if !is_inverted {
                         Decimal::from(token_reserve)
                             .try_mul(ratio)?
@@ -252,6 +255,10 @@ impl Pool {
                             .try_ceil()?
                     };
 
+                    // the ratio is rounded, but the user never pays more than
+                    // what they agreed to
+                    let amount = amount.min(max_token.amount);
+
                     Ok((mint, TokenAmount { amount }))
                 })
                 .collect::<Result<BTreeMap<Pubkey, TokenAmount>>>()?;
-- 
2.43.0


From ae66f498eef888a60bc767a1c227ee969af73270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:27 +0000
Subject: [PATCH 08/12] fix: put the discount even if its PDA was sent lamports
 before

---
 programs/amm/src/endpoints/put_discount.rs | 67 +++++++++++++++++++---
 1 file changed, 60 insertions(+), 7 deletions(-)

diff --git a/programs/amm/src/endpoints/put_discount.rs b/programs/amm/src/endpoints/put_discount.rs
index d5f9bb8..43910f4 100644
--- a/programs/amm/src/endpoints/put_discount.rs
+++ b/programs/amm/src/endpoints/put_discount.rs
@@ -76,13 +76,35 @@ pub fn handle(
             &[*ctx.bumps.get("discount").unwrap()],
         ];
         let rent = Rent::get()?.minimum_balance(Discount::space());
-        system_program::create_account(
-            accs.as_create_discount_account_context()
-                .with_signer(&[&pda_seeds[..]]),
-            rent,
-            Discount::space() as u64,
-            ctx.program_id,
-        )?;
+        let lamports = accs.discount.lamports();
+        if lamports == 0 {
+            system_program::create_account(
+                accs.as_create_discount_account_context()
+                    .with_signer(&[&pda_seeds[..]]),
+                rent,
+                Discount::space() as u64,
+                ctx.program_id,
+            )?;
+        } else {
+            // anyone can send lamports to the PDA before the account exists, in
+            // which case the system program refuses to create it
+            if lamports < rent {
+                system_program::transfer(
+                    accs.as_transfer_rent_to_discount_context(),
+                    rent - lamports,
+                )?;
+            }
+            system_program::allocate(
+                accs.as_allocate_discount_context()
+                    .with_signer(&[&pda_seeds[..]]),
+                Discount::space() as u64,
+            )?;
+            system_program::assign(
+                accs.as_assign_discount_context()
+                    .with_signer(&[&pda_seeds[..]]),
+                ctx.program_id,
+            )?;
+        }
     }
 
     // overwrites the data in the discount account
@@ -108,4 +130,35 @@ impl<'info> PutDiscount<'info> {
         let cpi_program = self.system_program.to_account_info();
         CpiContext::new(cpi_program, cpi_accounts)
     }
+
+    fn as_transfer_rent_to_discount_context(
+        &self,
+    ) -> CpiContext<'_, '_, '_, 'info, system_program::Transfer<'info>> {
+        let cpi_accounts = system_program::Transfer {
+            from: self.authority.to_account_info(),
+            to: self.discount.to_account_info(),
+        };
+        let cpi_program = self.system_program.to_account_info();
+        CpiContext::new(cpi_program, cpi_accounts)
+    }
+
+    fn as_allocate_discount_context(
+        &self,
+    ) -> CpiContext<'_, '_, '_, 'info, system_program::Allocate<'info>> {
+        let cpi_accounts = system_program::Allocate {
+            account_to_allocate: self.discount.to_account_info(),
+        };
+        let cpi_program = self.system_program.to_account_info();
+        CpiContext::new(cpi_program, cpi_accounts)
+    }
+
+    fn as_assign_discount_context(
+        &self,
+    ) -> CpiContext<'_, '_, '_, 'info, system_program::Assign<'info>> {
+        let cpi_accounts = system_program::Assign {
+            account_to_assign: self.discount.to_account_info(),
+        };
+        let cpi_program = self.system_program.to_account_info();
+        CpiContext::new(cpi_program, cpi_accounts)
+    }
 }
-- 
2.43.0


From c80c63d2db23d67dab401b4b2cb7ed49a231202e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:25 +0000
Subject: [PATCH 09/12] fix: iterate the stable curve invariant until it
 converges

---
 .../amm/src/math/stable_curve_invariant.rs    | 84 +++++++++----------
 1 file changed, 41 insertions(+), 43 deletions(-)

diff --git a/programs/amm/src/math/stable_curve_invariant.rs b/programs/amm/src/math/stable_curve_invariant.rs
index 54b8686..9b75d16 100644
--- a/programs/amm/src/math/stable_curve_invariant.rs
+++ b/programs/amm/src/math/stable_curve_invariant.rs
@@ -8,8 +8,9 @@ use helpers::scale_down_value;
 
 // The method should converge within few iterations, due to the fact
 // we are approximating positive root from a well positioned first
-// initial guess.
-// We use the same max that was used in the old AMM version.
+// initial guess. It's only when the reserves are extremely imbalanced that the
+// root is orders of magnitude below the initial guess and it takes tens of
+// iterations to get to it.
 //
 // This is one of two bounding conditions for the newtons method. The other is
 // the admissible error. We're pretty much guaranteed that the admissible error
@@ -19,7 +20,7 @@ use helpers::scale_down_value;
 // condition to reason about. It's better to know that the method will always
 // break on surpassing the admissible error, than to reason about whether it
 // was max iterations or the error.
-const MAX_ITERATIONS: usize = 32;
+const MAX_ITERATIONS: usize = 64;
 
 pub fn compute(
     amp: u64,
@@ -111,57 +112,44 @@ impl StableCurveInvariant {
 
     fn compute(self) -> Result<Decimal> {
         // acts as a threshold for the difference between successive
-        // approximations
+        // approximations, relative to the approximated value
+        //
+        // The scaled down sum of reserves is anything between 1 and 1000 and
+        // the value can be orders of magnitude smaller than that, hence an
+        // absolute error would be significant in comparison to some values.
+        // As the number of correct digits doubles on each iteration, the value
+        // in which the difference drops below 1/2000 is off by less than
+        // one part in a million.
         let admissible_error: Decimal =
-            Decimal::from(1u64).try_div(Decimal::from(2u64)).unwrap();
+            Decimal::from(1u64).try_div(Decimal::from(2000u64))?;
 
         // our initial guess is the scaled down sum of token reserve balances
-        let mut prev_val = self.initial_guess;
+        let mut prev_val;
 
         // current iteration of Newton-Raphson method
-        let mut new_val = prev_val;
+        let mut new_val = self.initial_guess;
 
         for _ in 0..MAX_ITERATIONS {
-            prev_val = new_val;
-            new_val = self.newton_method_single_iteration(&prev_val)?;
             // We proved by algebraic manipulations that given a first initial
             // guess coinciding with the sum of token reserve
             // balances, then sum(x_i) >= positive_zero where
             // positive_zero is the positive zero of the stable swap
             // polynomial. Moreover, the method is decreasing on
-            // each iteration. Therefore, in order to check that the method
-            // converges, we only need to check that (prev_iter - next_iter) <=
-            // adm_err. Given this assumption, it is impossible that prev_val <
-            // new_val and the only case where equality holds is when
-            // prev_val is a precise root of the polynomial.
-            // Notice also that if x is a root of the stable polynomial,
-            // applying Newton method to it will result in getting x again,
-            // and the reciprocal statement holds true, so it is an equivalence.
-            // Thus, the following checks are sufficient to guarantee
-            // full logic coverage.
-            if prev_val <= new_val {
-                let is_val_root_stable_poly = self
-                    .get_stable_swap_polynomial(&prev_val)?
-                    == Decimal::zero();
-
-                if is_val_root_stable_poly {
-                    return prev_val.try_mul(self.scl_down_coef);
-                } else {
-                    // in this case, prev_val is not a root of the polynomial,
-                    // and therefore having prev_val <=
-                    // new_val would violate our
-                    // mathematical assumptions
-                    msg!(
-                        "Invalid mathematical assumption: \
-                        previous value cannot be less or equal to new value"
-                    );
-                    return Err(error!(AmmError::InvariantViolation));
-                }
+            // each iteration and never gets below the positive zero, other
+            // than by rounding. Therefore, once the value is not above the
+            // positive zero there's nothing more to approximate.
+            if !self.is_above_root(&new_val)? {
+                break;
             }
 
-            // assuming that prev_val >= new_val, we just need to check that
-            // prev_val - new_val <= adm_error
-            if prev_val.try_sub(new_val)? <= admissible_error {
+            prev_val = new_val;
+            new_val = self.newton_method_single_iteration(&prev_val)?;
+
+            // we know that prev_val >= new_val, we just need to check that
+            // prev_val - new_val <= adm_error * prev_val
+            if prev_val.try_sub(new_val)?
+                <= admissible_error.try_mul(prev_val)?
+            {
                 break;
             }
         }
@@ -182,16 +170,26 @@ impl StableCurveInvariant {
             .try_sub(stable_swap_poly.try_div(derivative_stable_swap_poly)?)
     }
 
+    // The stable swap polynomial is increasing, i.e. it's positive only if the
+    // value is above its positive zero.
+    fn is_above_root(&self, val: &Decimal) -> Result<bool> {
+        Ok(self.get_positive_terms(val)? > self.polynomial_third_term)
+    }
+
     // Stable swap polynomial to be found in README.md under AMM - Equations
     fn get_stable_swap_polynomial(&self, val: &Decimal) -> Result<Decimal> {
         // D^(n+1) + D(An^n -1)\prod_i x_i n^n + A(n^n)^2\sum_i x_i \prod_i x_i
+        self.get_positive_terms(val)?
+            .try_sub(self.polynomial_third_term)
+    }
+
+    // D^(n+1) + D(An^n -1)\prod_i x_i n^n
+    fn get_positive_terms(&self, val: &Decimal) -> Result<Decimal> {
         let first_term = val.try_pow(self.exponent + 1)?;
 
         let second_term = val.try_mul(self.first_order_coeff)?;
 
-        first_term
-            .try_add(second_term)?
-            .try_sub(self.polynomial_third_term)
+        first_term.try_add(second_term)
     }
 
     // Derivative of stable swap polynomial to be found in README.md under AMM -
-- 
2.43.0


From dbe73ee3f73ea7f9353f9fb2470acac7cff81b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:25 +0000
Subject: [PATCH 10/12] fix: compute the curve invariant of a pool created with
 liquidity

---
 programs/amm/src/endpoints/create_pool.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/programs/amm/src/endpoints/create_pool.rs b/programs/amm/src/endpoints/create_pool.rs
index 3bdadb9..e65eb58 100644
--- a/programs/amm/src/endpoints/create_pool.rs
+++ b/programs/amm/src/endpoints/create_pool.rs
@@ -126,5 +126,8 @@ pub fn handle(ctx: Context<CreatePool>, amplifier: u64) -> Result<()> {
     accs.pool.dimension = mints.len() as u64;
     accs.pool.program_toll_wallet = accs.program_toll_wallet.key();
 
+    // the vaults can already hold liquidity
+    accs.pool.update_curve_invariant()?;
+
     Ok(())
 }
-- 
2.43.0


From 6b852c607e7a433a6d3a1b8f6a4196a2aaa78a04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 11/12] fix: redemptions of a stable pool with a huge amplifier
 overflowed

The third term of the polynomial multiplied by the sum of the reserves before
scaling it down. A pool which could be deposited into could refuse redemptions
which bring the sum below a power of 1000, as that scales the product up.
---
 programs/amm/src/math/stable_curve_invariant.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/programs/amm/src/math/stable_curve_invariant.rs b/programs/amm/src/math/stable_curve_invariant.rs
index 9b75d16..0cdc6e1 100644
--- a/programs/amm/src/math/stable_curve_invariant.rs
+++ b/programs/amm/src/math/stable_curve_invariant.rs
@@ -97,9 +97,8 @@ impl StableCurveInvariant {
             .try_mul(n_n_scaled_product)?;
         let polynomial_third_term = amp
             .try_mul(n)?
-            .try_mul(sum)?
-            .try_mul(n_n_scaled_product)?
-            .try_div(scl_down_coef)?;
+            .try_mul(initial_guess)?
+            .try_mul(n_n_scaled_product)?;
 
         Ok(Self {
             first_order_coeff,
-- 
2.43.0


From 72b866d89730600cc4faa2a1a290125456165e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:13 +0000
Subject: [PATCH 12/12] fix: a stable swap paid out the whole reserve if the
 curve was flat enough

The balance of the bought token on the curve is positive, but with a large
amplifier or very imbalanced reserves it gets below the precision of decimals
and the swap left an empty reserve.
---
 programs/amm/src/models/pool.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/programs/amm/src/models/pool.rs b/programs/amm/src/models/pool.rs
index 8c0dfde..016c857 100644
--- a/programs/amm/src/models/pool.rs
+++ b/programs/amm/src/models/pool.rs
@@ -676,13 +676,21 @@ impl Pool {
                 // for the base mint
                 let sum = fold_sum(&sold_or_neutral_token_balances_after_swap)?;
 
-                get_buy_reserve_balance_after_swap(
+                let balance = get_buy_reserve_balance_after_swap(
                     num_reserves,
                     &amp,
                     &d,
                     sum,
                     product,
-                )?
+                )?;
+
+                // the balance on the curve is positive, but it can be less than
+                // what the decimals are able to represent
+                if balance < Decimal::one() {
+                    Decimal::one()
+                } else {
+                    balance
+                }
             }
         };
 
-- 
2.43.0

