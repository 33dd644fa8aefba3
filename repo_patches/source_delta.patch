From ff930fc1fb88686b3a5015857603bc5c16a490d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 1/5] fix: reject one-sided deposits for curves that do not
 allow deposits

---
 programs/token-bonding-curve/src/processor.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/programs/token-bonding-curve/src/processor.rs b/programs/token-bonding-curve/src/processor.rs
index 57efa87..3172206 100644
--- a/programs/token-bonding-curve/src/processor.rs
+++ b/programs/token-bonding-curve/src/processor.rs
@@ -740,6 +740,9 @@ impl Processor {
         let token_program_info = next_account_info(account_info_iter)?;
 
         let token_swap = SwapVersion::unpack(&swap_info.data.borrow())?;
+        if !token_swap.swap_curve().calculator.allows_deposits() {
+            return Err(SwapError::UnsupportedCurveOperation.into());
+        }
         let source_account =
             Self::unpack_token_account(source_info, token_swap.token_program_id())?;
         let swap_token_a =
-- 
2.43.0


From 73db95f0fbb268f35fd37f98e1c8615f7e0b73ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 2/5] fix: do not panic when rounding a square root argument up
 carries past 64 bits

---
 programs/token-bonding-curve/src/dfs_precise_number.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/programs/token-bonding-curve/src/dfs_precise_number.rs b/programs/token-bonding-curve/src/dfs_precise_number.rs
index f36c2bd..f6f8c03 100644
--- a/programs/token-bonding-curve/src/dfs_precise_number.rs
+++ b/programs/token-bonding-curve/src/dfs_precise_number.rs
@@ -291,7 +291,10 @@ impl DFSPreciseNumber {
             // round up if it wasn't a perfect division and we should round up
             let padded_value =
                 match should_round_up && (unrounded_padded_value << pad_bits).lt(&self.value) {
-                    true => unrounded_padded_value.checked_add(InnerUint::from(1))?,
+                    // rounding up may carry past 64 bits, and u64::MAX has the same rounded up square root
+                    true => unrounded_padded_value
+                        .checked_add(InnerUint::from(1))?
+                        .min(InnerUint::from(u64::MAX)),
                     false => unrounded_padded_value,
                 };
 
-- 
2.43.0


From 0c0b8fb53ea3812915a758307bb1386fd7586245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 3/5] fix: round up what the user pays when a linear price buy
 drains the pool

---
 programs/token-bonding-curve/src/curve/linear_price.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/programs/token-bonding-curve/src/curve/linear_price.rs b/programs/token-bonding-curve/src/curve/linear_price.rs
index 947abab..9aefaf5 100644
--- a/programs/token-bonding-curve/src/curve/linear_price.rs
+++ b/programs/token-bonding-curve/src/curve/linear_price.rs
@@ -176,7 +176,10 @@ impl LinearPriceCurve {
         let maximum_b_value =
             b_start.checked_add(&(DFSPreciseNumber::new(swap_destination_amount)?))?;
         let maximum_a_locked = self.amt_a_locked_at_b_value_quadratic(&maximum_b_value)?;
-        let maximum_a_remaining = maximum_a_locked.checked_sub(&a_start)?.to_imprecise()?;
+        let maximum_a_remaining = maximum_a_locked
+            .checked_sub(&a_start)?
+            .ceiling()?
+            .to_imprecise()?;
 
         if maximum_a_remaining <= source_amount {
             return Some((maximum_a_remaining, swap_destination_amount));
-- 
2.43.0


From a78d07c4a96a75a147aede3f36885e5de4fa616d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:10 +0000
Subject: [PATCH 4/5] fix: round the pool value up when pricing deposits at a
 constant price

---
 programs/token-bonding-curve/src/curve/constant_price.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/programs/token-bonding-curve/src/curve/constant_price.rs b/programs/token-bonding-curve/src/curve/constant_price.rs
index 61b9f16..c5addc2 100644
--- a/programs/token-bonding-curve/src/curve/constant_price.rs
+++ b/programs/token-bonding-curve/src/curve/constant_price.rs
@@ -127,6 +127,11 @@ impl CurveCalculator for ConstantPriceCurve {
                 (token_a_amount, token_b_amount)
             }
             RoundDirection::Ceiling => {
+                // the normalized value is rounded down, so a deposit has to round it up again
+                let (total_value, _) = swap_token_b_amount
+                    .checked_mul(token_b_price)?
+                    .checked_add(swap_token_a_amount)?
+                    .checked_ceil_div(2)?;
                 let (token_a_amount, _) = pool_tokens
                     .checked_mul(total_value)?
                     .checked_ceil_div(pool_token_supply)?;
-- 
2.43.0


From 746d48a131edd087c336bbcd82697bf6261e2211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:57 +0000
Subject: [PATCH 5/5] fix: do not panic when a one-sided amount is worth more
 pool tokens than fit

---
 .../src/curve/constant_price.rs               | 21 +++++++++----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/programs/token-bonding-curve/src/curve/constant_price.rs b/programs/token-bonding-curve/src/curve/constant_price.rs
index c5addc2..3d89a1b 100644
--- a/programs/token-bonding-curve/src/curve/constant_price.rs
+++ b/programs/token-bonding-curve/src/curve/constant_price.rs
@@ -13,6 +13,7 @@ use {
         program_pack::{IsInitialized, Pack, Sealed},
     },
     spl_math::{checked_ceil_div::CheckedCeilDiv, precise_number::PreciseNumber, uint::U256},
+    std::convert::TryFrom,
 };
 
 /// Get the amount of pool tokens for the given amount of token A or B.
@@ -38,21 +39,19 @@ pub fn trading_tokens_to_pool_tokens(
         .checked_mul(token_b_price)?
         .checked_add(U256::from(swap_token_a_amount))?;
     let pool_supply = U256::from(pool_supply);
-    match round_direction {
-        RoundDirection::Floor => Some(
-            pool_supply
-                .checked_mul(given_value)?
-                .checked_div(total_value)?
-                .as_u128(),
-        ),
-        RoundDirection::Ceiling => Some(
+    let pool_tokens = match round_direction {
+        RoundDirection::Floor => pool_supply
+            .checked_mul(given_value)?
+            .checked_div(total_value)?,
+        RoundDirection::Ceiling => {
             pool_supply
                 .checked_mul(given_value)?
                 .checked_ceil_div(total_value)?
                 .0
-                .as_u128(),
-        ),
-    }
+        }
+    };
+    // as_u128 panics if the result doesn't fit
+    u128::try_from(pool_tokens).ok()
 }
 
 /// ConstantPriceCurve struct implementing CurveCalculator
-- 
2.43.0

