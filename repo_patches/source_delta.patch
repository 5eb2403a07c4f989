From 5ce979c0776f87c568447a48d1fa4b65edfe2c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:24 +0000
Subject: [PATCH 1/5] fix: capacity: do not stake the same tokens more than
 once

get_stakable_amount_for looked only at the free balance, so an account could
stake its whole balance again and again and obtain capacity without limit;
tokens already frozen for staking or unlocking are no longer counted.
---
 pallets/capacity/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pallets/capacity/src/lib.rs b/pallets/capacity/src/lib.rs
index 5b6b696..f33d874 100644
--- a/pallets/capacity/src/lib.rs
+++ b/pallets/capacity/src/lib.rs
@@ -554,14 +554,18 @@ impl<T: Config> Pallet<T> {
 		Ok(())
 	}
 
-	// Calculates a stakable amount from a proposed amount.
+	// Calculates a stakable amount from a proposed amount. Tokens that are already frozen for
+	// staking (actively staked or unlocking) cannot be staked a second time.
 	pub(crate) fn get_stakable_amount_for(
 		staker: &T::AccountId,
 		proposed_amount: BalanceOf<T>,
 	) -> BalanceOf<T> {
 		let account_balance = T::Currency::balance(&staker);
+		let already_frozen =
+			T::Currency::balance_frozen(&FreezeReason::CapacityStaking.into(), &staker);
 		account_balance
 			.saturating_sub(T::MinimumTokenBalance::get())
+			.saturating_sub(already_frozen)
 			.min(proposed_amount)
 	}
 
-- 
2.43.0


From a02555742cf5655576d78d4d56fa36cee759e4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:21 +0000
Subject: [PATCH 2/5] fix: msa: refuse a free revocation of a delegation
 already revoked in this block

---
 pallets/msa/src/lib.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/pallets/msa/src/lib.rs b/pallets/msa/src/lib.rs
index 4e91298..6986207 100644
--- a/pallets/msa/src/lib.rs
+++ b/pallets/msa/src/lib.rs
@@ -1643,8 +1643,13 @@ impl<T: Config + Send + Sync> CheckFreeExtrinsicUse<T> {
 			.into();
 		let provider_msa_id = ProviderId(*provider_msa_id);
 
-		Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
+		let delegation = Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
 			.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		// a delegation revoked in this very block is still valid, but cannot be revoked again
+		ensure!(
+			delegation.revoked_at.is_zero(),
+			InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8)
+		);
 		ValidTransaction::with_tag_prefix(TAG_PREFIX).and_provides(account_id).build()
 	}
 
@@ -1670,8 +1675,13 @@ impl<T: Config + Send + Sync> CheckFreeExtrinsicUse<T> {
 		let delegator_msa_id = DelegatorId(*delegator_msa_id);
 
 		// Verify the delegation exists and is active
-		Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
+		let delegation = Pallet::<T>::ensure_valid_delegation(provider_msa_id, delegator_msa_id, None)
 			.map_err(|_| InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8))?;
+		// a delegation revoked in this very block is still valid, but cannot be revoked again
+		ensure!(
+			delegation.revoked_at.is_zero(),
+			InvalidTransaction::Custom(ValidityError::InvalidDelegation as u8)
+		);
 		ValidTransaction::with_tag_prefix(TAG_PREFIX).and_provides(account_id).build()
 	}
 
-- 
2.43.0


From 222b61b97263279993255bd7faba5778fa133ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:59 +0000
Subject: [PATCH 3/5] fix: a schema named through governance remembers that it
 has a name

---
 pallets/schemas/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallets/schemas/src/lib.rs b/pallets/schemas/src/lib.rs
index a6d7b51..23be52f 100644
--- a/pallets/schemas/src/lib.rs
+++ b/pallets/schemas/src/lib.rs
@@ -641,6 +641,11 @@ pub mod pallet {
 				&parsed_name.descriptor,
 				|schema_version_id| -> DispatchResult {
 					schema_version_id.add::<T>(schema_id)?;
+					SchemaInfos::<T>::mutate(schema_id, |info| {
+						if let Some(info) = info {
+							info.has_name = true;
+						}
+					});
 
 					Self::deposit_event(Event::SchemaNameCreated {
 						schema_id,
-- 
2.43.0


From 273102bd26c7395fecd5c064368020541be43cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:59 +0000
Subject: [PATCH 4/5] fix: refuse handles whose canonical form is too long to
 be stored

---
 pallets/handles/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pallets/handles/src/lib.rs b/pallets/handles/src/lib.rs
index 9542b23..de05c9e 100644
--- a/pallets/handles/src/lib.rs
+++ b/pallets/handles/src/lib.rs
@@ -689,6 +689,11 @@ pub mod pallet {
 		}
 
 		fn validate_canonical_handle_length(canonical_handle_str: &str) -> DispatchResult {
+			// Validation: a canonical base that does not fit would be stored as the empty one
+			ensure!(
+				canonical_handle_str.len() as u32 <= HANDLE_BYTES_MAX,
+				Error::<T>::InvalidHandleByteLength
+			);
 			let len = canonical_handle_str.chars().count() as u32;
 
 			// Validation: `Canonical` character length must be within range
-- 
2.43.0


From f903190a3b7faf5b182db8f9af8d7eff8b4cdfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:43:59 +0000
Subject: [PATCH 5/5] fix: validate_handle checks the canonical length as
 claim_handle does

---
 pallets/handles/src/lib.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pallets/handles/src/lib.rs b/pallets/handles/src/lib.rs
index de05c9e..c64e659 100644
--- a/pallets/handles/src/lib.rs
+++ b/pallets/handles/src/lib.rs
@@ -773,7 +773,7 @@ pub mod pallet {
 					return Self::validate_canonical_handle_contains_characters_in_supported_ranges(
 						&canonical_handle_str,
 					)
-					.is_ok()
+					.is_ok() && Self::validate_canonical_handle_length(&canonical_handle_str).is_ok()
 				},
 				_ => false,
 			}
-- 
2.43.0

