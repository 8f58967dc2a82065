From 13a9f5d7235c0e7d71419244a65ef80c211b2dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:37 +0000
Subject: [PATCH 1/5] fix: compute the initial LP share in 256 bits so that
 large first deposits do not overflow

---
 contracts/halo-pair/src/contract.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index dfa45cb..bac78f8 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -6,7 +6,8 @@ use cosmwasm_std::entry_point;
 
 use cosmwasm_std::{
     from_binary, to_binary, Addr, Binary, CanonicalAddr, Coin, CosmosMsg, Decimal, Deps, DepsMut,
-    Env, MessageInfo, Reply, ReplyOn, Response, StdError, StdResult, SubMsg, Uint128, WasmMsg,
+    Env, Isqrt, MessageInfo, Reply, ReplyOn, Response, StdError, StdResult, SubMsg, Uint128,
+    WasmMsg,
 };
 
 use bignumber::{Decimal256, Uint256};
@@ -20,7 +21,6 @@ use haloswap::pair::{
 };
 use haloswap::querier::query_token_info;
 use haloswap::token::InstantiateMsg as TokenInstantiateMsg;
-use integer_sqrt::IntegerSquareRoot;
 use std::cmp::Ordering;
 use std::str::FromStr;
 
@@ -294,7 +294,7 @@ pub fn provide_liquidity(
 
         // if the total supply of the LP token is zero, Initial share = collateral amount
         // hoanm: EQUATION - LP = \sqrt{A * B}
-        Uint128::from((deposits[0].u128() * deposits[1].u128()).integer_sqrt())
+        Uint128::try_from(deposits[0].full_mul(deposits[1]).isqrt()).map_err(StdError::from)?
     } else {
         // hoanm: update these equations by using the formula of Uniswap V2
         // min(1, 2)
-- 
2.43.0


From 9fac7302435385c8002af41f832b916c8573a492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:30 +0000
Subject: [PATCH 2/5] fix: round the swap output down exactly and never
 underflow the reported spread

---
 contracts/halo-pair/src/contract.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/contracts/halo-pair/src/contract.rs b/contracts/halo-pair/src/contract.rs
index bac78f8..3cbc683 100644
--- a/contracts/halo-pair/src/contract.rs
+++ b/contracts/halo-pair/src/contract.rs
@@ -608,18 +608,19 @@ fn compute_swap(
     // hoanm: EQUATION - B = (R_B - \frac{K}{R_A + A}) * (1 - F)
     // ask_amount = (ask_pool - cp / (offer_pool + offer_amount)) * (1 - commission_rate)
 
-    // cp (constant product) is K  in the EQUATION
-    let cp: Uint256 = offer_pool * ask_pool;
-
-    // calculate the ask_amount without commission
-    let return_amount: Uint256 = (Decimal256::from_uint256(ask_pool)
-        - Decimal256::from_ratio(cp, offer_pool + offer_amount))
-        * Uint256::one();
+    // calculate the ask_amount without commission, which is the same as
+    // ask_pool * offer_amount / (offer_pool + offer_amount), rounded down
+    let return_amount: Uint256 = ask_pool.multiply_ratio(offer_amount, offer_pool + offer_amount);
 
     // calculate the spread_amount
     // hoanm: EQUATION - SPREAD = (A * \frac{R_B}{R_A}) - B
-    let spread_amount: Uint256 =
-        (offer_amount * Decimal256::from_ratio(ask_pool, offer_pool)) - return_amount;
+    // the pool price is rounded down, so it may fall short of the actual return
+    let ideal_amount: Uint256 = offer_amount * Decimal256::from_ratio(ask_pool, offer_pool);
+    let spread_amount: Uint256 = if ideal_amount > return_amount {
+        ideal_amount - return_amount
+    } else {
+        Uint256::zero()
+    };
 
     // calculate the commission_amount
     let commission_amount: Uint256 = return_amount * commission_rate;
-- 
2.43.0


From 7e357e32f8e33e2aefd3ee2674692071ae37d3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:33 +0000
Subject: [PATCH 3/5] fix: compare canonical asset forms when rejecting a pair
 of identical assets

---
 contracts/halo-factory/src/contract.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/halo-factory/src/contract.rs b/contracts/halo-factory/src/contract.rs
index 2b2e98a..7b25e0f 100644
--- a/contracts/halo-factory/src/contract.rs
+++ b/contracts/halo-factory/src/contract.rs
@@ -133,6 +133,11 @@ pub fn execute_create_pair(
         asset_infos[1].to_raw(deps.api)?,
     ];
 
+    // the same asset may be spelled in two ways, compare the canonical form as well
+    if raw_infos[0] == raw_infos[1] {
+        return Err(StdError::generic_err("same asset"));
+    }
+
     let asset_decimals = [asset_1_decimal, asset_2_decimal];
 
     let pair_key = pair_key(&raw_infos);
-- 
2.43.0


From fa3ace444edbdddd209c577c6466e77533543b99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:37 +0000
Subject: [PATCH 4/5] fix: do not treat a failed registry read as an absent
 pair

---
 contracts/halo-factory/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/halo-factory/src/contract.rs b/contracts/halo-factory/src/contract.rs
index 7b25e0f..139e881 100644
--- a/contracts/halo-factory/src/contract.rs
+++ b/contracts/halo-factory/src/contract.rs
@@ -141,7 +141,7 @@ pub fn execute_create_pair(
     let asset_decimals = [asset_1_decimal, asset_2_decimal];
 
     let pair_key = pair_key(&raw_infos);
-    if let Ok(Some(_)) = PAIRS.may_load(deps.storage, &pair_key) {
+    if PAIRS.may_load(deps.storage, &pair_key)?.is_some() {
         return Err(StdError::generic_err("Pair already exists"));
     }
 
-- 
2.43.0


From 4d48fbff3c1e8caa77edee16f81af2486da008bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:43 +0000
Subject: [PATCH 5/5] fix: list every pair after the cursor, also one whose key
 extends the cursor's key

---
 contracts/halo-factory/src/state.rs | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/contracts/halo-factory/src/state.rs b/contracts/halo-factory/src/state.rs
index 9a7dc05..bbb9da5 100644
--- a/contracts/halo-factory/src/state.rs
+++ b/contracts/halo-factory/src/state.rs
@@ -52,18 +52,13 @@ pub fn read_pairs(
         .collect::<StdResult<Vec<PairInfo>>>()
 }
 
-// this will set the first key after the provided key, by appending a 1 byte
+// the key of the provided pair, entries are listed strictly after it
 fn calc_range_start(start_after: Option<[AssetInfoRaw; 2]>) -> Option<Vec<u8>> {
     start_after.map(|asset_infos| {
         let mut asset_infos = asset_infos.to_vec();
         asset_infos.sort_by(|a, b| a.as_bytes().cmp(b.as_bytes()));
 
-        let mut v = [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()]
-            .concat()
-            .as_slice()
-            .to_vec();
-        v.push(1);
-        v
+        [asset_infos[0].as_bytes(), asset_infos[1].as_bytes()].concat()
     })
 }
 
-- 
2.43.0

