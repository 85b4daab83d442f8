From 98f16c124ec1d912bf37d963ac81023865a06573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:39 +0000
Subject: [PATCH 1/7] fix: keep the backstop usable while every share of a pool
 is queued

Emissions were divided by the unqueued shares. With all shares of a pool queued
for withdrawal and an active emission stream this divided by zero and refused
every deposit, dequeue, queue, claim and gulp. Treat it like an empty pool.
---
 backstop/src/emissions/distributor.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/backstop/src/emissions/distributor.rs b/backstop/src/emissions/distributor.rs
index cff6de4..878d7fd 100644
--- a/backstop/src/emissions/distributor.rs
+++ b/backstop/src/emissions/distributor.rs
@@ -80,9 +80,9 @@ pub fn update_emission_data_with_config(
     if emis_data.last_time >= emis_config.expiration
         || e.ledger().timestamp() == emis_data.last_time
         || emis_config.eps == 0
-        || pool_balance.shares == 0
+        || pool_balance.shares == pool_balance.q4w
     {
-        // emis_data already updated or expired
+        // emis_data already updated or expired, or there are no unqueued shares to emit to
         return emis_data;
     }
 
-- 
2.43.0


From 276705c1689bc9735f0ddad4fd1505496ca77938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 2/7] fix: keep the claimed LP tokens when a pool is named
 twice in a backstop claim

The second occurrence claims nothing and overwrote the amount recorded by the
first, so the emissions were spent on LP tokens that were credited to nobody.
Add the amounts up and deposit once per pool.
---
 backstop/src/emissions/claim.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/backstop/src/emissions/claim.rs b/backstop/src/emissions/claim.rs
index 3218655..6a02985 100644
--- a/backstop/src/emissions/claim.rs
+++ b/backstop/src/emissions/claim.rs
@@ -21,7 +21,8 @@ pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to:
         let claim_amt = claim_emissions(e, &pool_id, &pool_balance, from, &user_balance);
 
         claimed += claim_amt;
-        claims.set(pool_id, claim_amt);
+        let prev_amt = claims.get(pool_id.clone()).unwrap_or(0);
+        claims.set(pool_id, prev_amt + claim_amt);
     }
 
     if claimed > 0 {
@@ -52,8 +53,7 @@ pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to:
             &0,
             &e.current_contract_address(),
         );
-        for pool_id in pool_addresses.iter() {
-            let claim_amount = claims.get(pool_id.clone()).unwrap();
+        for (pool_id, claim_amount) in claims.iter() {
             let deposit_amount = lp_tokens_out
                 .fixed_mul_floor(claim_amount, claimed)
                 .unwrap();
-- 
2.43.0


From 0f6c4679eda5db0c3bef2bae3e10015bcd39e0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 3/7] fix: update the recipient's emissions before a backstop
 claim mints it shares

A claim to another account changed that account's shares without settling its
emissions, so the new shares also earned for the time before they existed, paid
out of what others had earned.
---
 backstop/src/emissions/claim.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/backstop/src/emissions/claim.rs b/backstop/src/emissions/claim.rs
index 6a02985..a185bb1 100644
--- a/backstop/src/emissions/claim.rs
+++ b/backstop/src/emissions/claim.rs
@@ -5,7 +5,7 @@ use soroban_sdk::{
     panic_with_error, vec, Address, Env, IntoVal, Map, Symbol, Val, Vec,
 };
 
-use super::distributor::claim_emissions;
+use super::distributor::{claim_emissions, update_emissions};
 
 /// Perform a claim for backstop deposit emissions by a user from the backstop module
 pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to: &Address) -> i128 {
@@ -60,6 +60,9 @@ pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to:
             let mut pool_balance = storage::get_pool_balance(e, &pool_id);
             let mut user_balance = storage::get_user_balance(e, &pool_id, to);
 
+            // bring the recipient's emissions up to date before its shares change
+            update_emissions(e, &pool_id, &pool_balance, to, &user_balance);
+
             // Deposit LP tokens into pool backstop
             let to_mint = pool_balance.convert_to_shares(deposit_amount);
             pool_balance.deposit(deposit_amount, to_mint);
-- 
2.43.0


From c001a114545373287399ef3b886baa597cc09e43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 4/7] fix: allow filling an interest auction whose bid has
 dropped to zero

400 blocks after the start the scaled bid has no entry left, and reading it
trapped: the auction could never be filled again and blocked new ones until it
expired.
---
 pool/src/auctions/backstop_interest_auction.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/pool/src/auctions/backstop_interest_auction.rs b/pool/src/auctions/backstop_interest_auction.rs
index 396683f..5bfa43e 100644
--- a/pool/src/auctions/backstop_interest_auction.rs
+++ b/pool/src/auctions/backstop_interest_auction.rs
@@ -83,13 +83,16 @@ pub fn fill_interest_auction(
     }
     let backstop_client = BackstopClient::new(&e, &backstop);
     let backstop_token: Address = backstop_client.backstop_token();
-    let backstop_token_bid_amount = auction_data.bid.get_unchecked(backstop_token);
+    // the bid holds no entry once it has been scaled down to zero
+    let backstop_token_bid_amount = auction_data.bid.get(backstop_token).unwrap_or(0);
 
-    backstop_client.donate(
-        &filler,
-        &e.current_contract_address(),
-        &backstop_token_bid_amount,
-    );
+    if backstop_token_bid_amount > 0 {
+        backstop_client.donate(
+            &filler,
+            &e.current_contract_address(),
+            &backstop_token_bid_amount,
+        );
+    }
 
     // lot contains underlying tokens, but the backstop credit must be updated on the reserve
     for (res_asset_address, lot_amount) in auction_data.lot.iter() {
-- 
2.43.0


From a607850f99264790542a097a439ec713eba96ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:57 +0000
Subject: [PATCH 5/7] fix: refuse a repeated asset when creating an interest
 auction

Naming a reserve several times counted its interest several times: the minimum
auction value could be bypassed and the bid was inflated, while the lot held the
interest once.
---
 pool/src/auctions/backstop_interest_auction.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pool/src/auctions/backstop_interest_auction.rs b/pool/src/auctions/backstop_interest_auction.rs
index 5bfa43e..9c441b6 100644
--- a/pool/src/auctions/backstop_interest_auction.rs
+++ b/pool/src/auctions/backstop_interest_auction.rs
@@ -27,6 +27,10 @@ pub fn create_interest_auction_data(
 
     let mut interest_value = 0; // expressed in the oracle's decimals
     for res_asset_address in assets.iter() {
+        // each reserve's interest can only be counted once
+        if auction_data.lot.contains_key(res_asset_address.clone()) {
+            panic_with_error!(e, PoolError::BadRequest);
+        }
         // don't store updated reserve data back to ledger. This will occur on the the auction's fill.
         let reserve = pool.load_reserve(e, &res_asset_address, false);
         if reserve.backstop_credit > 0 {
-- 
2.43.0


From 011256aad134d9d6d8f336e26f4f10f136d0ab5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 6/7] fix: refuse auction fill percentages that do not fit 64
 bits

The requested percentage was truncated to 64 bits before it was checked, so
2^64 + 50 was taken for 50 percent.
---
 pool/src/pool/actions.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pool/src/pool/actions.rs b/pool/src/pool/actions.rs
index 5a1845f..c05b9f7 100644
--- a/pool/src/pool/actions.rs
+++ b/pool/src/pool/actions.rs
@@ -1,5 +1,8 @@
+use cast::u64;
 use soroban_sdk::Map;
-use soroban_sdk::{contracttype, panic_with_error, Address, Env, Symbol, Vec};
+use soroban_sdk::{
+    contracttype, panic_with_error, unwrap::UnwrapOptimized, Address, Env, Symbol, Vec,
+};
 
 use crate::{auctions, errors::PoolError, validator::require_nonnegative};
 
@@ -245,7 +248,7 @@ pub fn build_actions_from_request(
                     0,
                     &request.address,
                     &mut from_state,
-                    request.amount as u64,
+                    u64(request.amount).unwrap_optimized(),
                 );
                 check_health = true;
 
@@ -266,7 +269,7 @@ pub fn build_actions_from_request(
                     1,
                     &request.address,
                     &mut from_state,
-                    request.amount as u64,
+                    u64(request.amount).unwrap_optimized(),
                 );
                 check_health = true;
 
@@ -287,7 +290,7 @@ pub fn build_actions_from_request(
                     2,
                     &request.address,
                     &mut from_state,
-                    request.amount as u64,
+                    u64(request.amount).unwrap_optimized(),
                 );
                 e.events().publish(
                     (
-- 
2.43.0


From 00f58ce9b59f358bf3de206fe88373d4cd1f0d8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:40 +0000
Subject: [PATCH 7/7] fix: apply a changed take rate only to interest accrued
 from then on

---
 pool/src/pool/config.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pool/src/pool/config.rs b/pool/src/pool/config.rs
index 7d1da91..e018811 100644
--- a/pool/src/pool/config.rs
+++ b/pool/src/pool/config.rs
@@ -61,6 +61,14 @@ pub fn execute_update_pool(e: &Env, backstop_take_rate: u32, max_positions: u32)
         panic_with_error!(e, PoolError::BadRequest);
     }
     let mut pool_config = storage::get_pool_config(e);
+    if pool_config.bstop_rate != backstop_take_rate {
+        // accrue and store reserve data to the ledger, such that interest accrued until now
+        // (and any auction of it) is still shared with the backstop at the previous take rate
+        let mut pool = Pool::load(e);
+        for asset in storage::get_res_list(e).iter() {
+            pool.load_reserve(e, &asset, false).store(e);
+        }
+    }
     pool_config.bstop_rate = backstop_take_rate;
     pool_config.max_positions = max_positions;
     storage::set_pool_config(e, &pool_config);
-- 
2.43.0

