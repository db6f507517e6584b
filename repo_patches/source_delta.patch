From 903c9f13262ee279ff4807475829ef39ce194fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:14 +0000
Subject: [PATCH 01/11] fix: reject handle characters outside the Basic
 Multilingual Plane instead of truncating them

consists_of_supported_unicode_character_sets() cast each char to u16, so a
character above U+FFFF was judged by its low 16 bits and e.g. U+20061 passed
as 'a'.
---
 pallets/handles/src/handles-utils/build.rs         | 5 ++++-
 pallets/handles/src/handles-utils/src/validator.rs | 9 ++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/pallets/handles/src/handles-utils/build.rs b/pallets/handles/src/handles-utils/build.rs
index 637081c..0712662 100644
--- a/pallets/handles/src/handles-utils/build.rs
+++ b/pallets/handles/src/handles-utils/build.rs
@@ -9,7 +9,10 @@ mod constants;
 use constants::ALLOWED_UNICODE_CHARACTER_RANGES;
 
 fn allowed_char(c: char) -> bool {
-	ALLOWED_UNICODE_CHARACTER_RANGES.iter().any(|range| range.contains(&(c as u16)))
+	// Characters beyond the Basic Multilingual Plane do not fit in a u16 and are never allowed
+	u16::try_from(c as u32).map_or(false, |code| {
+		ALLOWED_UNICODE_CHARACTER_RANGES.iter().any(|range| range.contains(&code))
+	})
 }
 
 #[allow(clippy::unwrap_used)]
diff --git a/pallets/handles/src/handles-utils/src/validator.rs b/pallets/handles/src/handles-utils/src/validator.rs
index 7e371d6..72b682c 100644
--- a/pallets/handles/src/handles-utils/src/validator.rs
+++ b/pallets/handles/src/handles-utils/src/validator.rs
@@ -62,7 +62,10 @@ pub fn contains_blocked_characters(input_str: &str) -> bool {
 ///
 /// A boolean value indicating whether the string contains characters within the allowed unicode character sets (`true`) or not (`false`).
 pub fn consists_of_supported_unicode_character_sets(input_str: &str) -> bool {
-	input_str
-		.chars()
-		.all(|c| ALLOWED_UNICODE_CHARACTER_RANGES.iter().any(|range| range.contains(&(c as u16))))
+	// Characters beyond the Basic Multilingual Plane do not fit in a u16 and are never allowed
+	input_str.chars().all(|c| {
+		u16::try_from(c as u32).map_or(false, |code| {
+			ALLOWED_UNICODE_CHARACTER_RANGES.iter().any(|range| range.contains(&code))
+		})
+	})
 }
-- 
2.43.0


From 85feff8817b60f2f6571b6a7ce643ecdb81d4a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:14 +0000
Subject: [PATCH 02/11] fix: reject handles whose canonical form does not fit
 in CanonicalBase

Decomposition can make the canonical form longer than the base handle (U+FDFA
becomes 18 characters). A canonical form of more than 32 bytes was silently
replaced by the empty canonical base, so different handles shared one key,
could be given the same (base, suffix) pair, and overwrote each other's owner.
---
 pallets/handles/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallets/handles/src/lib.rs b/pallets/handles/src/lib.rs
index 9542b23..929e735 100644
--- a/pallets/handles/src/lib.rs
+++ b/pallets/handles/src/lib.rs
@@ -696,6 +696,11 @@ pub mod pallet {
 				len >= HANDLE_CHARS_MIN && len <= HANDLE_CHARS_MAX,
 				Error::<T>::InvalidHandleCharacterLength
 			);
+			// Validation: `Canonical` byte length must fit in a `CanonicalBase`
+			ensure!(
+				canonical_handle_str.len() as u32 <= HANDLE_BYTES_MAX,
+				Error::<T>::InvalidHandleByteLength
+			);
 			Ok(())
 		}
 
-- 
2.43.0


From c7fd7673e3880f161a9a8633fc94ddcafb1a05b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:14 +0000
Subject: [PATCH 03/11] fix: make validate_handle apply the length checks
 claim_handle applies

validate_handle() promises to run all the checks of claim_handle, but skipped
the byte length and the canonical length, so it accepted handles that cannot
be claimed.
---
 pallets/handles/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/handles/src/lib.rs b/pallets/handles/src/lib.rs
index 929e735..8073706 100644
--- a/pallets/handles/src/lib.rs
+++ b/pallets/handles/src/lib.rs
@@ -764,6 +764,9 @@ pub mod pallet {
 		/// # Returns
 		/// * true if it is valid or false if invalid
 		pub fn validate_handle(handle: Vec<u8>) -> bool {
+			if Self::verify_max_handle_byte_length(handle.clone()).is_err() {
+				return false
+			}
 			return match Self::validate_base_handle(handle) {
 				Ok(base_handle_str) => {
 					// Convert base handle into a canonical base
@@ -773,6 +776,7 @@ pub mod pallet {
 					return Self::validate_canonical_handle_contains_characters_in_supported_ranges(
 						&canonical_handle_str,
 					)
+					.and_then(|_| Self::validate_canonical_handle_length(&canonical_handle_str))
 					.is_ok()
 				},
 				_ => false,
-- 
2.43.0


From 145c94fe4767e4f729d1ccf6ff44e0e29ebd2c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:51 +0000
Subject: [PATCH 04/11] fix: refuse a message once the block's message indexes
 are used up

The per-block index saturated at u16::MAX, so every further message of the
block was stored under that last index and replaced the one before it. Return
the documented TypeConversionOverflow instead.
---
 pallets/messages/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pallets/messages/src/lib.rs b/pallets/messages/src/lib.rs
index b8ee6b6..cc354a9 100644
--- a/pallets/messages/src/lib.rs
+++ b/pallets/messages/src/lib.rs
@@ -317,6 +317,7 @@ impl<T: Config> Pallet<T> {
 		current_block: BlockNumberFor<T>,
 	) -> Result<bool, DispatchError> {
 		let index = BlockMessageIndex::<T>::get();
+		let next_index = index.checked_add(1).ok_or(Error::<T>::TypeConversionOverflow)?;
 		let first = index == 0;
 		let msg = Message {
 			payload, // size is checked on top of extrinsic
@@ -325,7 +326,7 @@ impl<T: Config> Pallet<T> {
 		};
 
 		<MessagesV2<T>>::insert((current_block, schema_id, index), msg);
-		BlockMessageIndex::<T>::set(index.saturating_add(1));
+		BlockMessageIndex::<T>::set(next_index);
 		Ok(first)
 	}
 
-- 
2.43.0


From 8d3593b630871fcc3725b0f59b448fa8eab66acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:42 +0000
Subject: [PATCH 05/11] fix: mark a schema as named once governance names it

create_schema_name_via_governance() never set has_name, so the
SchemaIdAlreadyHasName check did not stop the same schema from being given
further names.
---
 pallets/schemas/src/lib.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pallets/schemas/src/lib.rs b/pallets/schemas/src/lib.rs
index a6d7b51..7de8641 100644
--- a/pallets/schemas/src/lib.rs
+++ b/pallets/schemas/src/lib.rs
@@ -648,7 +648,13 @@ pub mod pallet {
 					});
 					Ok(())
 				},
-			)
+			)?;
+			SchemaInfos::<T>::mutate(schema_id, |maybe_info| {
+				if let Some(info) = maybe_info {
+					info.has_name = true;
+				}
+			});
+			Ok(())
 		}
 	}
 
-- 
2.43.0


From 952a35296f96cfc944a18052565927f16983e47e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:35 +0000
Subject: [PATCH 06/11] fix: never unstake more from a target than the staker
 has staked to it

---
 pallets/capacity/src/lib.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pallets/capacity/src/lib.rs b/pallets/capacity/src/lib.rs
index 5b6b696..12d3eb2 100644
--- a/pallets/capacity/src/lib.rs
+++ b/pallets/capacity/src/lib.rs
@@ -601,6 +601,10 @@ impl<T: Config> Pallet<T> {
 	) -> Result<BalanceOf<T>, DispatchError> {
 		let mut staking_target_details = Self::get_target_for(&unstaker, &target)
 			.ok_or(Error::<T>::StakerTargetRelationshipNotFound)?;
+		ensure!(
+			amount <= staking_target_details.amount,
+			Error::<T>::AmountToUnstakeExceedsAmountStaked
+		);
 		let mut capacity_details =
 			Self::get_capacity_for(target).ok_or(Error::<T>::TargetCapacityNotFound)?;
 
-- 
2.43.0


From 06746a03e5cd99ade8e0756aac4c68dd18cf5993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:35 +0000
Subject: [PATCH 07/11] fix: reject a capacity deposit that overflows instead
 of storing half of it

---
 pallets/capacity/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pallets/capacity/src/lib.rs b/pallets/capacity/src/lib.rs
index 12d3eb2..e57b96b 100644
--- a/pallets/capacity/src/lib.rs
+++ b/pallets/capacity/src/lib.rs
@@ -690,7 +690,9 @@ impl<T: Config> Nontransferable for Pallet<T> {
 	fn deposit(msa_id: MessageSourceId, amount: Self::Balance) -> Result<(), DispatchError> {
 		let mut capacity_details =
 			Self::get_capacity_for(msa_id).ok_or(Error::<T>::TargetCapacityNotFound)?;
-		capacity_details.deposit(&amount, &Self::capacity_generated(amount));
+		capacity_details
+			.deposit(&amount, &Self::capacity_generated(amount))
+			.ok_or(ArithmeticError::Overflow)?;
 		Self::set_capacity_for(msa_id, capacity_details);
 		Ok(())
 	}
-- 
2.43.0


From 0d0ed6d52caca5a3334cbe57b08dd733e82946d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:36 +0000
Subject: [PATCH 08/11] fix: store the result of replenishing capacity by an
 amount

---
 pallets/capacity/src/lib.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pallets/capacity/src/lib.rs b/pallets/capacity/src/lib.rs
index e57b96b..255df88 100644
--- a/pallets/capacity/src/lib.rs
+++ b/pallets/capacity/src/lib.rs
@@ -721,6 +721,9 @@ impl<T: Config> Replenishable for Pallet<T> {
 		let mut capacity_details =
 			Self::get_capacity_for(msa_id).ok_or(Error::<T>::TargetCapacityNotFound)?;
 		capacity_details.replenish_by_amount(amount, &Self::get_current_epoch());
+
+		Self::set_capacity_for(msa_id, capacity_details);
+
 		Ok(())
 	}
 
-- 
2.43.0


From 97c90a4f762453c24fe82d2bb1a02871f85cb0cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:43 +0000
Subject: [PATCH 09/11] fix: a key is deleted only from the MSA it belongs to

---
 pallets/msa/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pallets/msa/src/lib.rs b/pallets/msa/src/lib.rs
index 4e91298..452783f 100644
--- a/pallets/msa/src/lib.rs
+++ b/pallets/msa/src/lib.rs
@@ -1259,6 +1259,7 @@ impl<T: Config> Pallet<T> {
 	pub fn delete_key_for_msa(msa_id: MessageSourceId, key: &T::AccountId) -> DispatchResult {
 		PublicKeyToMsaId::<T>::try_mutate_exists(key, |maybe_msa_id| {
 			ensure!(maybe_msa_id.is_some(), Error::<T>::NoKeyExists);
+			ensure!(*maybe_msa_id == Some(msa_id), Error::<T>::NotKeyOwner);
 
 			// Delete the key if it exists
 			*maybe_msa_id = None;
-- 
2.43.0


From 212b37b3c47397a1c9ff58bdcc251a41d24c979a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:17:43 +0000
Subject: [PATCH 10/11] fix: a utility batch is allowed only when every call in
 it is

---
 runtime/frequency/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/runtime/frequency/src/lib.rs b/runtime/frequency/src/lib.rs
index 7f77095..f4e837e 100644
--- a/runtime/frequency/src/lib.rs
+++ b/runtime/frequency/src/lib.rs
@@ -168,7 +168,7 @@ impl BaseCallFilter {
 		match call {
 			pallet_utility::Call::batch { calls, .. } |
 			pallet_utility::Call::batch_all { calls, .. } |
-			pallet_utility::Call::force_batch { calls, .. } => calls.iter().any(Self::is_batch_call_allowed),
+			pallet_utility::Call::force_batch { calls, .. } => calls.iter().all(Self::is_batch_call_allowed),
 			_ => true,
 		}
 	}
-- 
2.43.0


From a526a0e0a7f2d0fe571e6ca578cbdcc504235656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:23 +0000
Subject: [PATCH 11/11] fix: charge a passkey transaction the fee of its own
 length

---
 pallets/passkey/src/lib.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pallets/passkey/src/lib.rs b/pallets/passkey/src/lib.rs
index 911ec3f..00fadce 100644
--- a/pallets/passkey/src/lib.rs
+++ b/pallets/passkey/src/lib.rs
@@ -279,7 +279,7 @@ where
 	/// Validates the transaction fee paid with tokens.
 	pub fn pre_dispatch(&self) -> Result<(), TransactionValidityError> {
 		let info = &self.1.get_dispatch_info();
-		let len = self.0.using_encoded(|c| c.len());
+		let len = self.1.using_encoded(|c| c.len());
 		let runtime_call: <T as frame_system::Config>::RuntimeCall =
 			<T as frame_system::Config>::RuntimeCall::from(self.1.clone());
 		let who = self.0.clone();
@@ -290,7 +290,7 @@ where
 	/// Validates the transaction fee paid with tokens.
 	pub fn validate(&self) -> TransactionValidity {
 		let info = &self.1.get_dispatch_info();
-		let len = self.0.using_encoded(|c| c.len());
+		let len = self.1.using_encoded(|c| c.len());
 		let runtime_call: <T as frame_system::Config>::RuntimeCall =
 			<T as frame_system::Config>::RuntimeCall::from(self.1.clone());
 		let who = self.0.clone();
-- 
2.43.0

