From 626edf34f57d27e971af096e3778d4f8b2b3b857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 1/8] fix: settle the recipient's backstop emissions before a
 claim adds to its shares

---
 backstop/src/emissions/claim.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/backstop/src/emissions/claim.rs b/backstop/src/emissions/claim.rs
index 3218655..0de10f7 100644
--- a/backstop/src/emissions/claim.rs
+++ b/backstop/src/emissions/claim.rs
@@ -5,7 +5,7 @@ use soroban_sdk::{
     panic_with_error, vec, Address, Env, IntoVal, Map, Symbol, Val, Vec,
 };
 
-use super::distributor::claim_emissions;
+use super::distributor::{claim_emissions, update_emissions};
 
 /// Perform a claim for backstop deposit emissions by a user from the backstop module
 pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to: &Address) -> i128 {
@@ -59,6 +59,8 @@ pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to:
                 .unwrap();
             let mut pool_balance = storage::get_pool_balance(e, &pool_id);
             let mut user_balance = storage::get_user_balance(e, &pool_id, to);
+            // settle the emissions of `to` before their balance changes
+            update_emissions(e, &pool_id, &pool_balance, to, &user_balance);
 
             // Deposit LP tokens into pool backstop
             let to_mint = pool_balance.convert_to_shares(deposit_amount);
-- 
2.43.0


From 2789276003ca1f882fb15911bb0bb0edc2160c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 2/8] fix: credit a backstop claim in full when a pool is
 listed more than once

---
 backstop/src/emissions/claim.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/backstop/src/emissions/claim.rs b/backstop/src/emissions/claim.rs
index 0de10f7..72c09ac 100644
--- a/backstop/src/emissions/claim.rs
+++ b/backstop/src/emissions/claim.rs
@@ -21,7 +21,9 @@ pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to:
         let claim_amt = claim_emissions(e, &pool_id, &pool_balance, from, &user_balance);
 
         claimed += claim_amt;
-        claims.set(pool_id, claim_amt);
+        // a pool can be listed more than once
+        let prev_claim_amt = claims.get(pool_id.clone()).unwrap_or(0);
+        claims.set(pool_id, prev_claim_amt + claim_amt);
     }
 
     if claimed > 0 {
@@ -52,8 +54,7 @@ pub fn execute_claim(e: &Env, from: &Address, pool_addresses: &Vec<Address>, to:
             &0,
             &e.current_contract_address(),
         );
-        for pool_id in pool_addresses.iter() {
-            let claim_amount = claims.get(pool_id.clone()).unwrap();
+        for (pool_id, claim_amount) in claims.iter() {
             let deposit_amount = lp_tokens_out
                 .fixed_mul_floor(claim_amount, claimed)
                 .unwrap();
-- 
2.43.0


From d677e004347cd533d495808ece9803fe78573ece Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:49 +0000
Subject: [PATCH 3/8] fix: do not divide by zero emitting to a backstop with
 every share queued for withdrawal

---
 backstop/src/emissions/distributor.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/backstop/src/emissions/distributor.rs b/backstop/src/emissions/distributor.rs
index cff6de4..567c1ae 100644
--- a/backstop/src/emissions/distributor.rs
+++ b/backstop/src/emissions/distributor.rs
@@ -77,10 +77,12 @@ pub fn update_emission_data_with_config(
 ) -> BackstopEmissionsData {
     let emis_data = storage::get_backstop_emis_data(e, pool_id).unwrap_optimized(); // exists if config is written to
 
+    let unqueued_shares = pool_balance.shares - pool_balance.q4w;
+    require_nonnegative(e, unqueued_shares);
     if emis_data.last_time >= emis_config.expiration
         || e.ledger().timestamp() == emis_data.last_time
         || emis_config.eps == 0
-        || pool_balance.shares == 0
+        || unqueued_shares == 0
     {
         // emis_data already updated or expired
         return emis_data;
@@ -92,8 +94,6 @@ pub fn update_emission_data_with_config(
         e.ledger().timestamp()
     };
 
-    let unqueued_shares = pool_balance.shares - pool_balance.q4w;
-    require_nonnegative(e, unqueued_shares);
     let additional_idx = (i128(max_timestamp - emis_data.last_time) * i128(emis_config.eps))
         .fixed_div_floor(unqueued_shares, SCALAR_7)
         .unwrap_optimized();
-- 
2.43.0


From 2e21d7155242fc26b8052ce2ac201c334ae0795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:40 +0000
Subject: [PATCH 4/8] fix: let a backstop auction be filled when its bid or lot
 has scaled to nothing

---
 pool/src/auctions/backstop_interest_auction.rs | 2 +-
 pool/src/auctions/bad_debt_auction.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pool/src/auctions/backstop_interest_auction.rs b/pool/src/auctions/backstop_interest_auction.rs
index 396683f..23607f8 100644
--- a/pool/src/auctions/backstop_interest_auction.rs
+++ b/pool/src/auctions/backstop_interest_auction.rs
@@ -83,7 +83,7 @@ pub fn fill_interest_auction(
     }
     let backstop_client = BackstopClient::new(&e, &backstop);
     let backstop_token: Address = backstop_client.backstop_token();
-    let backstop_token_bid_amount = auction_data.bid.get_unchecked(backstop_token);
+    let backstop_token_bid_amount = auction_data.bid.get(backstop_token).unwrap_or(0);
 
     backstop_client.donate(
         &filler,
diff --git a/pool/src/auctions/bad_debt_auction.rs b/pool/src/auctions/bad_debt_auction.rs
index d01d043..b990bec 100644
--- a/pool/src/auctions/bad_debt_auction.rs
+++ b/pool/src/auctions/bad_debt_auction.rs
@@ -87,7 +87,7 @@ pub fn fill_bad_debt_auction(
 
     let backstop_client = BackstopClient::new(e, &backstop_address);
     let backstop_token_id = backstop_client.backstop_token();
-    let lot_amount = auction_data.lot.get(backstop_token_id).unwrap_optimized();
+    let lot_amount = auction_data.lot.get(backstop_token_id).unwrap_or(0);
     backstop_client.draw(
         &e.current_contract_address(),
         &lot_amount,
-- 
2.43.0


From dd3458102ba17294a1805ecd271b76f425691539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:22 +0000
Subject: [PATCH 5/8] fix: refuse a fill percent that does not fit its type
 instead of truncating it

---
 pool/src/pool/actions.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/pool/src/pool/actions.rs b/pool/src/pool/actions.rs
index 5a1845f..c400103 100644
--- a/pool/src/pool/actions.rs
+++ b/pool/src/pool/actions.rs
@@ -245,7 +245,7 @@ pub fn build_actions_from_request(
                     0,
                     &request.address,
                     &mut from_state,
-                    request.amount as u64,
+                    fill_percent(e, request.amount),
                 );
                 check_health = true;
 
@@ -266,7 +266,7 @@ pub fn build_actions_from_request(
                     1,
                     &request.address,
                     &mut from_state,
-                    request.amount as u64,
+                    fill_percent(e, request.amount),
                 );
                 check_health = true;
 
@@ -287,7 +287,7 @@ pub fn build_actions_from_request(
                     2,
                     &request.address,
                     &mut from_state,
-                    request.amount as u64,
+                    fill_percent(e, request.amount),
                 );
                 e.events().publish(
                     (
@@ -316,6 +316,14 @@ pub fn build_actions_from_request(
     (actions, from_state, check_health)
 }
 
+/// Convert the amount of a fill request to the percent of the auction to fill
+///
+/// ### Panics
+/// If the amount does not fit the type of a percent
+fn fill_percent(e: &Env, amount: i128) -> u64 {
+    u64::try_from(amount).unwrap_or_else(|_| panic_with_error!(e, PoolError::BadRequest))
+}
+
 #[cfg(test)]
 mod tests {
 
-- 
2.43.0


From 0e00cd82cd30af5f050c1a6b7ff0b7e73fabba2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:01 +0000
Subject: [PATCH 6/8] fix: count an asset once toward an interest auction when
 it is listed more than once

---
 pool/src/auctions/backstop_interest_auction.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pool/src/auctions/backstop_interest_auction.rs b/pool/src/auctions/backstop_interest_auction.rs
index 23607f8..ea9a0b2 100644
--- a/pool/src/auctions/backstop_interest_auction.rs
+++ b/pool/src/auctions/backstop_interest_auction.rs
@@ -29,7 +29,7 @@ pub fn create_interest_auction_data(
     for res_asset_address in assets.iter() {
         // don't store updated reserve data back to ledger. This will occur on the the auction's fill.
         let reserve = pool.load_reserve(e, &res_asset_address, false);
-        if reserve.backstop_credit > 0 {
+        if reserve.backstop_credit > 0 && !auction_data.lot.contains_key(res_asset_address.clone()) {
             let asset_to_base = pool.load_price(e, &res_asset_address);
             interest_value += i128(asset_to_base)
                 .fixed_mul_floor(reserve.backstop_credit, reserve.scalar)
-- 
2.43.0


From c495d3b1842f6d1e8ecf7e8923a6495ac0e3f324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:40 +0000
Subject: [PATCH 7/8] fix: close a bad debt auction when a fill leaves the
 backstop without debt

---
 pool/src/auctions/auction.rs          | 6 ++++--
 pool/src/auctions/bad_debt_auction.rs | 6 +++++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/pool/src/auctions/auction.rs b/pool/src/auctions/auction.rs
index 9143300..14d9574 100644
--- a/pool/src/auctions/auction.rs
+++ b/pool/src/auctions/auction.rs
@@ -154,13 +154,15 @@ pub fn fill(
         panic_with_error!(e, PoolError::InvalidLiquidation);
     }
     let auction_data = storage::get_auction(e, &auction_type, user);
-    let (to_fill_auction, remaining_auction) = scale_auction(e, &auction_data, percent_filled);
+    let (to_fill_auction, mut remaining_auction) = scale_auction(e, &auction_data, percent_filled);
     match AuctionType::from_u32(e, auction_type) {
         AuctionType::UserLiquidation => {
             fill_user_liq_auction(e, pool, &to_fill_auction, user, filler_state)
         }
         AuctionType::BadDebtAuction => {
-            fill_bad_debt_auction(e, pool, &to_fill_auction, filler_state)
+            if fill_bad_debt_auction(e, pool, &to_fill_auction, filler_state) {
+                remaining_auction = None;
+            }
         }
         AuctionType::InterestAuction => {
             fill_interest_auction(e, pool, &to_fill_auction, &filler_state.address)
diff --git a/pool/src/auctions/bad_debt_auction.rs b/pool/src/auctions/bad_debt_auction.rs
index b990bec..7c31b12 100644
--- a/pool/src/auctions/bad_debt_auction.rs
+++ b/pool/src/auctions/bad_debt_auction.rs
@@ -68,13 +68,16 @@ pub fn create_bad_debt_auction_data(e: &Env, backstop: &Address) -> AuctionData
     auction_data
 }
 
+/// Fill a bad debt auction
+///
+/// Returns true if the backstop has no debt left, leaving nothing to be auctioned
 #[allow(clippy::inconsistent_digit_grouping)]
 pub fn fill_bad_debt_auction(
     e: &Env,
     pool: &mut Pool,
     auction_data: &AuctionData,
     filler_state: &mut User,
-) {
+) -> bool {
     let backstop_address = storage::get_backstop(e);
     if filler_state.address == backstop_address {
         panic_with_error!(e, PoolError::BadRequest);
@@ -117,6 +120,7 @@ pub fn fill_bad_debt_auction(
         }
     }
     backstop_state.store(e);
+    backstop_state.positions.liabilities.is_empty()
 }
 
 #[cfg(test)]
-- 
2.43.0


From 5531c5e2d39cc0f245ec0f2ed0f7599a9cc86dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:53 +0000
Subject: [PATCH 8/8] fix: settle accrued interest at the old backstop take
 rate before it changes

---
 pool/src/pool/config.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pool/src/pool/config.rs b/pool/src/pool/config.rs
index 7d1da91..2128d6e 100644
--- a/pool/src/pool/config.rs
+++ b/pool/src/pool/config.rs
@@ -61,6 +61,13 @@ pub fn execute_update_pool(e: &Env, backstop_take_rate: u32, max_positions: u32)
         panic_with_error!(e, PoolError::BadRequest);
     }
     let mut pool_config = storage::get_pool_config(e);
+    // accrue and store reserve data to the ledger so a new take rate only applies from now on
+    if pool_config.bstop_rate != backstop_take_rate {
+        let mut pool = Pool::load(e);
+        for asset in storage::get_res_list(e).iter() {
+            pool.load_reserve(e, &asset, false).store(e);
+        }
+    }
     pool_config.bstop_rate = backstop_take_rate;
     pool_config.max_positions = max_positions;
     storage::set_pool_config(e, &pool_config);
-- 
2.43.0

