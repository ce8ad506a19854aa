From 2103d5d2ed629edce85bb36ff03725467e328f6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:29 +0000
Subject: [PATCH 1/3] fix: checked sum of batch mint values in Erc1155Supply

values.iter().sum() wraps modulo 2^256, so a batch mint whose values add up
to 2^256 or more left total_supply_all below the sum of the per-id supplies.
---
 contracts/src/token/erc1155/extensions/supply.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/src/token/erc1155/extensions/supply.rs b/contracts/src/token/erc1155/extensions/supply.rs
index f0323f5..7aee00e 100644
--- a/contracts/src/token/erc1155/extensions/supply.rs
+++ b/contracts/src/token/erc1155/extensions/supply.rs
@@ -257,7 +257,10 @@ impl Erc1155Supply {
                 );
             }
 
-            let total_mint_value = values.iter().sum();
+            let total_mint_value = values
+                .iter()
+                .try_fold(U256::ZERO, |acc, &value| acc.checked_add(value))
+                .expect("should not exceed `U256::MAX` for `total_supply_all`");
             self.total_supply_all.add_assign_checked(
                 total_mint_value,
                 "should not exceed `U256::MAX` for `total_supply_all`",
-- 
2.43.0


From bdf815cdf4e3de48a31b924bb531cbd1dd77a78d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:47 +0000
Subject: [PATCH 2/3] fix: compute consecutive token ids without wrapping in
 U96

With a batch ending at id U96::MAX the next id wrapped to zero, so burning a
token of the batch did not mark it as burned and it kept its owner. A batch
reaching past U96::MAX wrapped to a last id below its first one, so the
receiver was credited a balance without owning the tokens.
---
 .../src/token/erc721/extensions/consecutive.rs   | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/contracts/src/token/erc721/extensions/consecutive.rs b/contracts/src/token/erc721/extensions/consecutive.rs
index 03d1a02..d765f35 100644
--- a/contracts/src/token/erc721/extensions/consecutive.rs
+++ b/contracts/src/token/erc721/extensions/consecutive.rs
@@ -341,7 +341,9 @@ impl Erc721Consecutive {
             }
 
             // Push an ownership checkpoint & emit event.
-            let last = next + batch_size - uint!(1_U96);
+            // Panics if the last token id of the batch exceeds `U96::MAX`.
+            let last =
+                U96::from(next + U256::from(batch_size) - uint!(1_U256));
             self.sequential_ownership.push(last, to.into())?;
 
             // The invariant required by this function is preserved because the
@@ -353,13 +355,13 @@ impl Erc721Consecutive {
             );
 
             evm::log(ConsecutiveTransfer {
-                from_token_id: next.to::<U256>(),
+                from_token_id: next,
                 to_token_id: last.to::<U256>(),
                 from_address: Address::ZERO,
                 to_address: to,
             });
         };
-        Ok(next)
+        Ok(U96::from(next))
     }
 
     /// Override of [`Erc721::_update`] that restricts normal minting to after
@@ -394,7 +396,7 @@ impl Erc721Consecutive {
         // if we burn
         if to.is_zero()
             // and the token_id was minted in a batch
-            && token_id < U256::from(self._next_consecutive_id())
+            && token_id < self._next_consecutive_id()
             // and the token was never marked as burnt
             && !self.sequential_burn.get(token_id)
         {
@@ -412,10 +414,10 @@ impl Erc721Consecutive {
     /// # Arguments
     ///
     /// * `&self` - Read access to the contract's state.
-    fn _next_consecutive_id(&self) -> U96 {
+    fn _next_consecutive_id(&self) -> U256 {
         match self.sequential_ownership.latest_checkpoint() {
-            None => self._first_consecutive_id(),
-            Some((latest_id, _)) => latest_id + uint!(1_U96),
+            None => U256::from(self._first_consecutive_id()),
+            Some((latest_id, _)) => U256::from(latest_id) + uint!(1_U256),
         }
     }
 
-- 
2.43.0


From 6366153b0f7f2da5ff95e39686317b10ae375d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:05 +0000
Subject: [PATCH 3/3] fix: remainder of a zero dividend in WideUint::ct_rem

---
 lib/crypto/src/arithmetic/uint.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/crypto/src/arithmetic/uint.rs b/lib/crypto/src/arithmetic/uint.rs
index afe6984..2446793 100644
--- a/lib/crypto/src/arithmetic/uint.rs
+++ b/lib/crypto/src/arithmetic/uint.rs
@@ -839,8 +839,14 @@ impl<const N: usize> WideUint<N> {
 
         let mut remainder = Uint::<N>::ZERO;
 
+        // Zero dividend has no significant bits.
+        let num_bits = self.ct_num_bits();
+        if num_bits == 0 {
+            return remainder;
+        }
+
         // Start with the last bit.
-        let mut index = self.ct_num_bits() - 1;
+        let mut index = num_bits - 1;
         loop {
             // Shift the remainder to the left by 1,
             let (result, carry) = remainder.ct_checked_mul2();
-- 
2.43.0

