From b4ae484e9f3fad7ac4dae556b7d6d4155e32e2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:24:48 +0000
Subject: [PATCH 01/22] fix: stable pool update_config must require the admin's
 authorization

---
 contracts/pool_stable/src/contract.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index 6948dd4..06873be 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -570,6 +570,8 @@ impl StableLiquidityPoolTrait for StableLiquidityPool {
         max_allowed_slippage_bps: Option<i64>,
         max_allowed_spread_bps: Option<i64>,
     ) {
+        sender.require_auth();
+
         if sender != utils::get_admin(&env) {
             log!(&env, "Pool Stable: UpdateConfig: Unauthorized");
             panic_with_error!(&env, ContractError::Unauthorized);
-- 
2.43.0


From 7ee0c89b83e6dab18e41a40332e3d7f828f3c257 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 02/22] fix: stable pool swaps between tokens of different
 decimals

---
 contracts/pool_stable/src/contract.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index 06873be..3d42cfc 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -1026,7 +1026,7 @@ pub fn compute_swap(
         amp as u128,
         scale_value(
             offer_pool + offer_amount,
-            greatest_precision,
+            offer_pool_precision,
             DECIMAL_PRECISION,
         ),
         &[
@@ -1036,8 +1036,12 @@ pub fn compute_swap(
         greatest_precision,
     );
 
+    // Back to the precision of the ask token, never below the computed amount
+    let new_ask_pool = new_ask_pool.div_ceil(10u128.pow(greatest_precision - ask_pool_precision));
+
     let return_amount = ask_pool - new_ask_pool;
     // We consider swap rate 1:1 in stable swap thus any difference is considered as spread.
+    let offer_amount = scale_value(offer_amount, offer_pool_precision, ask_pool_precision);
     let spread_amount = if offer_amount > return_amount {
         convert_u128_to_i128(offer_amount - return_amount)
     } else {
@@ -1081,7 +1085,7 @@ pub fn compute_offer_amount(
         amp as u128,
         scale_value(
             ask_pool - convert_i128_to_u128(before_commission),
-            greatest_precision,
+            ask_pool_precision,
             DECIMAL_PRECISION,
         ),
         &[
@@ -1091,10 +1095,15 @@ pub fn compute_offer_amount(
         greatest_precision,
     );
 
+    // Back to the precision of the offer token, never below the computed amount
+    let new_offer_pool =
+        new_offer_pool.div_ceil(10u128.pow(greatest_precision - offer_pool_precision));
+
     let offer_amount = new_offer_pool - offer_pool;
 
     let ask_before_commission = convert_u128_to_i128(ask_amount) * inv_one_minus_commission;
     // We consider swap rate 1:1 in stable swap thus any difference is considered as spread.
+    let ask_amount = scale_value(ask_amount, ask_pool_precision, offer_pool_precision);
     let spread_amount = if offer_amount > ask_amount {
         offer_amount - ask_amount
     } else {
-- 
2.43.0


From 265389310b4b7764cbd6f806dda8631aee539527 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 03/22] fix: multihop reverse simulation passes the offer asset
 to stable pools

---
 contracts/multihop/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/multihop/src/contract.rs b/contracts/multihop/src/contract.rs
index dcd39a6..876eaee 100644
--- a/contracts/multihop/src/contract.rs
+++ b/contracts/multihop/src/contract.rs
@@ -266,7 +266,7 @@ impl MultihopTrait for Multihop {
                 PoolType::Stable => {
                     let lp_client = stable_pool::Client::new(&env, &pool_address);
                     let simulated_reverse_swap =
-                        lp_client.simulate_reverse_swap(&op.ask_asset, &next_ask_amount);
+                        lp_client.simulate_reverse_swap(&op.offer_asset, &next_ask_amount);
 
                     let token_symbol = token_contract::Client::new(&env, &op.ask_asset).symbol();
 
-- 
2.43.0


From 3d30abef94ceb98a67c47b1212f81a4228158e6d Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 04/22] fix: stakes bonded after a distribution must not block
 reward withdrawal

---
 contracts/stake/src/distribution.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/contracts/stake/src/distribution.rs b/contracts/stake/src/distribution.rs
index 4587ce7..f56cd54 100644
--- a/contracts/stake/src/distribution.rs
+++ b/contracts/stake/src/distribution.rs
@@ -100,8 +100,9 @@ pub fn calculate_pending_rewards(
                     for stake in user_info.stakes.iter() {
                         // Calculate the user's share of the total staked amount at the time
                         let user_share = stake.stake as u128 * daily_reward / total_staked;
-                        let stake_age_days =
-                            (staking_reward_day - stake.stake_timestamp) / SECONDS_PER_DAY;
+                        let stake_age_days = staking_reward_day
+                            .saturating_sub(stake.stake_timestamp)
+                            / SECONDS_PER_DAY;
                         let multiplier = if stake_age_days >= 60 {
                             Decimal::one()
                         } else {
-- 
2.43.0


From 6f12fa82635195676f1d99d9809f811ad7038005 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:25:40 +0000
Subject: [PATCH 05/22] fix: distributions in the same ledger must not
 overwrite each other

---
 contracts/stake/src/contract.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/contracts/stake/src/contract.rs b/contracts/stake/src/contract.rs
index c767a81..a016c1b 100644
--- a/contracts/stake/src/contract.rs
+++ b/contracts/stake/src/contract.rs
@@ -238,15 +238,19 @@ impl StakingTrait for Staking {
             panic_with_error!(&env, ContractError::DistributionNotFound);
         }
 
-        let current_timestamp = env.ledger().timestamp();
+        let mut distribution_timestamp = env.ledger().timestamp();
         let total_staked_amount = get_total_staked_counter(&env);
 
         let mut total_staked_history = get_total_staked_history(&env);
-        total_staked_history.set(current_timestamp, total_staked_amount as u128);
+        // every distribution needs its own entry, otherwise it replaces the previous one
+        while total_staked_history.contains_key(distribution_timestamp) {
+            distribution_timestamp += 1;
+        }
+        total_staked_history.set(distribution_timestamp, total_staked_amount as u128);
         save_total_staked_history(&env, total_staked_history);
 
         let mut reward_history = get_reward_history(&env, &reward_token);
-        reward_history.set(current_timestamp, amount as u128);
+        reward_history.set(distribution_timestamp, amount as u128);
         save_reward_history(&env, &reward_token, reward_history);
 
         token_contract::Client::new(&env, &reward_token).transfer(
-- 
2.43.0


From 44a4a6d18fdbcb96a827fcaef52c2c9c35d59780 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 06/22] fix: unbonding pays the rewards earned so far

---
 contracts/stake/src/contract.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/contracts/stake/src/contract.rs b/contracts/stake/src/contract.rs
index a016c1b..9f18129 100644
--- a/contracts/stake/src/contract.rs
+++ b/contracts/stake/src/contract.rs
@@ -182,6 +182,9 @@ impl StakingTrait for Staking {
 
         let config = get_config(&env);
 
+        // pay the rewards earned so far, the removed stake no longer counts for them
+        Self::withdraw_rewards(env.clone(), sender.clone());
+
         let mut stakes = get_stakes(&env, &sender);
 
         remove_stake(&env, &mut stakes.stakes, stake_amount, stake_timestamp);
@@ -277,11 +280,13 @@ impl StakingTrait for Staking {
             env.events()
                 .publish(("withdraw_rewards", "reward_token"), &asset);
 
-            token_contract::Client::new(&env, &asset).transfer(
-                &env.current_contract_address(),
-                &sender,
-                &pending_reward,
-            );
+            if pending_reward > 0 {
+                token_contract::Client::new(&env, &asset).transfer(
+                    &env.current_contract_address(),
+                    &sender,
+                    &pending_reward,
+                );
+            }
         }
         stakes.last_reward_time = env.ledger().timestamp();
         save_stakes(&env, &sender, &stakes);
-- 
2.43.0


From 4ac04aaf1ad8b5f1f7d6d90f1e3d5e91929b77f3 Mon Sep 17 00:00:00 2001
From: verif <verif@local>
Date: Thu, 19 Nov 2026 19:26:27 +0000
Subject: [PATCH 07/22] fix: trader without an amount trades its own balance

---
 contracts/trader/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/trader/src/contract.rs b/contracts/trader/src/contract.rs
index 4dae3a9..093fcd3 100644
--- a/contracts/trader/src/contract.rs
+++ b/contracts/trader/src/contract.rs
@@ -149,7 +149,7 @@ impl TraderTrait for Trader {
         let amount = if let Some(amount) = amount {
             amount as i128
         } else {
-            token_client.balance(&sender)
+            token_client.balance(&env.current_contract_address())
         };
 
         let amount_swapped = lp_client.swap(
-- 
2.43.0


From e8a50f6ad07785e76162fa023c08961f165b4169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:18 +0000
Subject: [PATCH 08/22] fix: stable pool arithmetic overflows above ten whole
 tokens

---
 contracts/pool_stable/src/contract.rs | 26 +++++++++++---------------
 contracts/pool_stable/src/math.rs     | 17 +++++++----------
 2 files changed, 18 insertions(+), 25 deletions(-)

diff --git a/contracts/pool_stable/src/contract.rs b/contracts/pool_stable/src/contract.rs
index 3d42cfc..da8c32b 100644
--- a/contracts/pool_stable/src/contract.rs
+++ b/contracts/pool_stable/src/contract.rs
@@ -3,7 +3,7 @@ use phoenix::{
     utils::{convert_i128_to_u128, convert_u128_to_i128, LiquidityPoolInitInfo},
 };
 use soroban_sdk::{
-    contract, contractimpl, contractmeta, log, panic_with_error, Address, BytesN, Env, String,
+    contract, contractimpl, contractmeta, log, panic_with_error, Address, BytesN, Env, String, U256,
 };
 
 use crate::{
@@ -384,22 +384,18 @@ impl StableLiquidityPoolTrait for StableLiquidityPool {
                         DECIMAL_PRECISION,
                     ),
                 ],
-            )
-            .to_u128()
-            .expect("Pool stable: provide_liquidity: conversion to u128 failed");
-
-            // Calculate the proportion of the change in invariant
-            let invariant_delta = convert_u128_to_i128(
-                new_invariant
-                    .to_u128()
-                    .expect("Pool stable: provide_liquidity: conversion to u128 failed")
-                    - initial_invariant,
             );
 
-            let initial_invariant = convert_u128_to_i128(initial_invariant);
-            convert_i128_to_u128(
-                total_shares * (Decimal::new(invariant_delta) / Decimal::new(initial_invariant)),
-            )
+            // Calculate the proportion of the change in invariant; amounts with 18 decimals need
+            // more than 128 bits here
+            let one = U256::from_u128(&env, 10u128.pow(DECIMAL_PRECISION));
+            let invariant_delta = new_invariant.sub(&initial_invariant);
+            let ratio = invariant_delta.mul(&one).div(&initial_invariant);
+            U256::from_u128(&env, convert_i128_to_u128(total_shares))
+                .mul(&ratio)
+                .div(&one)
+                .to_u128()
+                .expect("Pool stable: provide_liquidity: conversion to u128 failed")
         };
 
         if let Some(min_shares) = min_shares_to_receive {
diff --git a/contracts/pool_stable/src/math.rs b/contracts/pool_stable/src/math.rs
index d0badba..f185869 100644
--- a/contracts/pool_stable/src/math.rs
+++ b/contracts/pool_stable/src/math.rs
@@ -15,8 +15,6 @@ const ITERATIONS: u8 = 64;
 const N_COINS: u128 = 2;
 /// N = 2 with DECIMAL_PRECISION (18) digits
 const N_COINS_PRECISION: u128 = 2000000000000000000;
-/// 1*10**18
-const DECIMAL_FRACTIONAL: u128 = 1_000_000_000_000_000_000;
 /// 1e-6
 const TOL: u128 = 1000000000000;
 
@@ -74,8 +72,9 @@ pub(crate) fn compute_current_amp(env: &Env, amp_params: &AmplifierParameters) -
 /// A * sum(x_i) * n**n + D = A * D * n**n + D**(n+1) / (n**n * prod(x_i))
 pub fn compute_d(env: &Env, amp: u128, pools: &[u128]) -> U256 {
     let leverage = U256::from_u128(env, (amp / AMP_PRECISION as u128) * N_COINS_PRECISION);
-    let amount_a_times_coins = pools[0] * N_COINS;
-    let amount_b_times_coins = pools[1] * N_COINS;
+    // the product of two amounts with 18 decimals each does not fit into u128
+    let amounts_times_coins =
+        U256::from_u128(env, pools[0] * N_COINS).mul(&U256::from_u128(env, pools[1] * N_COINS));
 
     let sum_x = U256::from_u128(env, pools[0] + pools[1]); // sum(x_i), a.k.a S
     let zero = U256::from_u128(env, 0u128);
@@ -88,10 +87,7 @@ pub fn compute_d(env: &Env, amp: u128, pools: &[u128]) -> U256 {
 
     // Newton's method to approximate D
     for _ in 0..ITERATIONS {
-        let d_product = d.pow(3).div(&U256::from_u128(
-            env,
-            amount_a_times_coins * amount_b_times_coins,
-        ));
+        let d_product = d.pow(3).div(&amounts_times_coins);
         d_previous = d.clone();
         d = calculate_step(env, &d, &leverage, &sum_x, &d_product);
         // Equality with the precision of 1e-6
@@ -155,8 +151,9 @@ pub(crate) fn calc_y(
     let new_amount = U256::from_u128(env, new_amount);
 
     let d = compute_d(env, amp, xp);
-    let leverage = U256::from_u128(env, amp * DECIMAL_FRACTIONAL * N_COINS);
-    let amp_prec = U256::from_u128(env, AMP_PRECISION as u128 * DECIMAL_FRACTIONAL);
+    // only the ratio of these two matters; scaling both up would overflow d**3 * amp_prec
+    let leverage = U256::from_u128(env, amp * N_COINS);
+    let amp_prec = U256::from_u128(env, AMP_PRECISION as u128);
 
     let c = d
         .pow(3)
-- 
2.43.0


From 4966b3111b241255ef1d9cca5ecdb07f20513403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 09/22] fix: reverse simulation refuses asks beyond the pool's
 reserve

---
 contracts/pool/src/contract.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/contracts/pool/src/contract.rs b/contracts/pool/src/contract.rs
index ca9e8d6..1769990 100644
--- a/contracts/pool/src/contract.rs
+++ b/contracts/pool/src/contract.rs
@@ -1211,10 +1211,15 @@ pub fn compute_offer_amount(
     // Calculate the inverse of one minus the commission rate
     let inv_one_minus_commission = Decimal::one() / one_minus_commission;
 
-    // Calculate the resulting amount of ask assets after the swap
-    let offer_amount: i128 = cp / (ask_pool - (ask_amount * inv_one_minus_commission)) - offer_pool;
-
     let ask_before_commission = ask_amount * inv_one_minus_commission;
+    // No offer can buy the whole reserve or more
+    assert!(
+        ask_before_commission < ask_pool,
+        "Pool: compute_offer_amount: ask amount exceeds the pool's reserve"
+    );
+
+    // Calculate the resulting amount of ask assets after the swap
+    let offer_amount: i128 = cp / (ask_pool - ask_before_commission) - offer_pool;
 
     // Calculate the spread amount, representing the difference between the expected and actual swap amounts
     let spread_amount: i128 = (offer_amount * ask_pool / offer_pool) - ask_before_commission;
-- 
2.43.0


From 94cc77d2099d5fe4f3c8eb78861526113df8308d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:52 +0000
Subject: [PATCH 10/22] fix: trader authorizes the pool to pull the tokens it
 trades

---
 contracts/trader/src/contract.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/contracts/trader/src/contract.rs b/contracts/trader/src/contract.rs
index 093fcd3..c17283d 100644
--- a/contracts/trader/src/contract.rs
+++ b/contracts/trader/src/contract.rs
@@ -1,6 +1,8 @@
 use phoenix::ttl::{INSTANCE_BUMP_AMOUNT, INSTANCE_LIFETIME_THRESHOLD};
 use soroban_sdk::{
-    contract, contractimpl, contractmeta, log, panic_with_error, Address, Env, String,
+    auth::{ContractContext, InvokerContractAuthEntry, SubContractInvocation},
+    contract, contractimpl, contractmeta, log, panic_with_error, symbol_short, vec, Address, Env,
+    IntoVal, String,
 };
 
 use crate::{
@@ -152,6 +154,24 @@ impl TraderTrait for Trader {
             token_client.balance(&env.current_contract_address())
         };
 
+        // the pool pulls the tokens from this contract, which needs its authorization
+        env.authorize_as_current_contract(vec![
+            &env,
+            InvokerContractAuthEntry::Contract(SubContractInvocation {
+                context: ContractContext {
+                    contract: token_to_swap.clone(),
+                    fn_name: symbol_short!("transfer"),
+                    args: (
+                        env.current_contract_address(),
+                        liquidity_pool.clone(),
+                        amount,
+                    )
+                        .into_val(&env),
+                },
+                sub_invocations: vec![&env],
+            }),
+        ]);
+
         let amount_swapped = lp_client.swap(
             &env.current_contract_address(),
             &token_to_swap,
-- 
2.43.0


From 452e638c9cdbcfa19dbe23d7922d4a7f32c5e403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:07 +0000
Subject: [PATCH 11/22] fix: swaps with a price impact below one unit must not
 trap

---
 contracts/pool/src/contract.rs | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/contracts/pool/src/contract.rs b/contracts/pool/src/contract.rs
index 1769990..8d30190 100644
--- a/contracts/pool/src/contract.rs
+++ b/contracts/pool/src/contract.rs
@@ -1158,11 +1158,18 @@ pub fn compute_swap(
     // which ensures the product of the amounts of the two assets remains constant before and after a trade.
     let return_amount =
         ask_pool_as_u256.sub(&(cp.div(&offer_pool_as_u256.add(&offer_amount_as_u256))));
-    // Calculate the spread amount, representing the difference between the expected and actual swap amounts
-    let spread_amount = (offer_amount_as_u256
+    // The amount expected at the pool's current price
+    let expected_amount = offer_amount_as_u256
         .mul(&ask_pool_as_u256)
-        .div(&offer_pool_as_u256))
-    .sub(&return_amount);
+        .div(&offer_pool_as_u256);
+    // The return amount is rounded up; it must not exceed the current price by that
+    let return_amount = if return_amount > expected_amount {
+        expected_amount.clone()
+    } else {
+        return_amount
+    };
+    // Calculate the spread amount, representing the difference between the expected and actual swap amounts
+    let spread_amount = expected_amount.sub(&return_amount);
 
     let decimal_fractional = U256::from_u128(env, 1_000_000_000_000_000_000u128);
     let commission_amount = return_amount
-- 
2.43.0


From 56dd46750becbcdb91ba9892754d3b0831ce8ce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:01 +0000
Subject: [PATCH 12/22] fix: a reward withdrawal must not forfeit distributions
 of the same ledger

---
 contracts/stake/src/contract.rs     | 10 +++++++++-
 contracts/stake/src/distribution.rs |  2 --
 contracts/stake/src/storage.rs      | 10 ++++++++++
 3 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/contracts/stake/src/contract.rs b/contracts/stake/src/contract.rs
index 9f18129..3b667d4 100644
--- a/contracts/stake/src/contract.rs
+++ b/contracts/stake/src/contract.rs
@@ -244,6 +244,11 @@ impl StakingTrait for Staking {
         let mut distribution_timestamp = env.ledger().timestamp();
         let total_staked_amount = get_total_staked_counter(&env);
 
+        // users whose rewards were paid out in this ledger must not miss this distribution
+        if let Some(last_withdrawal) = utils::get_last_withdrawal(&env) {
+            distribution_timestamp = distribution_timestamp.max(last_withdrawal + 1);
+        }
+
         let mut total_staked_history = get_total_staked_history(&env);
         // every distribution needs its own entry, otherwise it replaces the previous one
         while total_staked_history.contains_key(distribution_timestamp) {
@@ -288,8 +293,11 @@ impl StakingTrait for Staking {
                 );
             }
         }
-        stakes.last_reward_time = env.ledger().timestamp();
+        // several distributions in this ledger have entries after the current time
+        let last_distribution = get_total_staked_history(&env).keys().last().unwrap_or(0);
+        stakes.last_reward_time = last_distribution.max(env.ledger().timestamp());
         save_stakes(&env, &sender, &stakes);
+        utils::save_last_withdrawal(&env, stakes.last_reward_time);
     }
 
     // QUERIES
diff --git a/contracts/stake/src/distribution.rs b/contracts/stake/src/distribution.rs
index f56cd54..18d310e 100644
--- a/contracts/stake/src/distribution.rs
+++ b/contracts/stake/src/distribution.rs
@@ -72,7 +72,6 @@ pub fn calculate_pending_rewards(
     reward_token: &Address,
     user_info: &BondingInfo,
 ) -> i128 {
-    let current_timestamp = env.ledger().timestamp();
     let last_reward_day = user_info.last_reward_time;
 
     // Load reward history and total staked history from storage
@@ -89,7 +88,6 @@ pub fn calculate_pending_rewards(
         for staking_reward_day in reward_keys
             .iter()
             .skip_while(|&day| day < first_relevant_day)
-            .take_while(|&day| day <= current_timestamp)
         {
             if let (Some(daily_reward), Some(total_staked)) = (
                 reward_history.get(staking_reward_day),
diff --git a/contracts/stake/src/storage.rs b/contracts/stake/src/storage.rs
index aa87ffd..2757774 100644
--- a/contracts/stake/src/storage.rs
+++ b/contracts/stake/src/storage.rs
@@ -112,6 +112,7 @@ pub mod utils {
         Distributions = 2,
         Initialized = 3,
         StakeRewards = 4,
+        LastWithdrawal = 5,
     }
 
     impl TryFromVal<Env, DataKey> for Val {
@@ -206,6 +207,15 @@ pub mod utils {
         total_staked
     }
 
+    /// The latest time up to which any user's rewards have been paid out
+    pub fn save_last_withdrawal(e: &Env, time: u64) {
+        e.storage().instance().set(&DataKey::LastWithdrawal, &time);
+    }
+
+    pub fn get_last_withdrawal(e: &Env) -> Option<u64> {
+        e.storage().instance().get(&DataKey::LastWithdrawal)
+    }
+
     // Keep track of all distributions to be able to iterate over them
     pub fn add_distribution(e: &Env, asset: &Address) {
         let mut distributions = get_distributions(e);
-- 
2.43.0


From 5add53a17c717420031a8d4e9e71b7802f916e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:48 +0000
Subject: [PATCH 13/22] fix: overlapping reward schedules cannot block a
 distribution by rounding

---
 contracts/stake_rewards/src/contract.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/stake_rewards/src/contract.rs b/contracts/stake_rewards/src/contract.rs
index 3c2e1c8..5b1bfae 100644
--- a/contracts/stake_rewards/src/contract.rs
+++ b/contracts/stake_rewards/src/contract.rs
@@ -258,7 +258,9 @@ impl StakingRewardsTrait for StakingRewards {
         // Calculate how much we have received since the last time Distributed was called,
         // including only the reward config amount that is eligible for distribution.
         // This is the amount we will distribute to all mem
-        let amount = undistributed_rewards - withdrawable - curve.value(env.ledger().timestamp());
+        // A combined curve may, by rounding, lock a unit more than there is.
+        let amount = (undistributed_rewards - withdrawable)
+            .saturating_sub(curve.value(env.ledger().timestamp()));
 
         if amount == 0 {
             return;
-- 
2.43.0


From cffa351f0305797bcab71c84520d38a660281eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:35 +0000
Subject: [PATCH 14/22] verification hook: export Decimal256 under
 cfg(phoenix_verif)

---
 packages/decimal/src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/packages/decimal/src/lib.rs b/packages/decimal/src/lib.rs
index c866e44..50b2977 100644
--- a/packages/decimal/src/lib.rs
+++ b/packages/decimal/src/lib.rs
@@ -4,3 +4,5 @@ mod decimal;
 mod decimal256;
 
 pub use decimal::Decimal;
+#[cfg(phoenix_verif)]
+pub use decimal256::Decimal256;
-- 
2.43.0


From 72004b72e934ee33e6f77f87e5f86c33cc8df324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 15/22] fix: read and print negative decimals with a fraction
 correctly

---
 packages/decimal/src/decimal.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/packages/decimal/src/decimal.rs b/packages/decimal/src/decimal.rs
index ed89696..d0560ef 100644
--- a/packages/decimal/src/decimal.rs
+++ b/packages/decimal/src/decimal.rs
@@ -359,11 +359,20 @@ impl FromStr for Decimal {
         let mut atomics = whole * Self::DECIMAL_FRACTIONAL;
 
         if let Some(fractional_part) = parts_iter.next() {
+            assert!(
+                fractional_part.bytes().all(|b| b.is_ascii_digit()),
+                "Error parsing fractional"
+            );
             let fractional: i128 = fractional_part.parse().expect("Error parsing fractional");
             let exp = Self::DECIMAL_PLACES - fractional_part.len() as i32;
             assert!(exp >= 0, "There must be at least one fractional digit");
             let fractional_factor = 10i128.pow(exp as u32);
-            atomics += fractional * fractional_factor;
+            // the sign applies to the whole number, also when its integer part is zero
+            if whole_part.starts_with('-') {
+                atomics -= fractional * fractional_factor;
+            } else {
+                atomics += fractional * fractional_factor;
+            }
         }
 
         assert!(parts_iter.next().is_none(), "Unexpected number of dots");
@@ -374,11 +383,12 @@ impl FromStr for Decimal {
 
 impl fmt::Display for Decimal {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
-        let whole = self.0 / Self::DECIMAL_FRACTIONAL;
-        let fractional = self.0 % Self::DECIMAL_FRACTIONAL;
+        let sign = if self.0 < 0 { "-" } else { "" };
+        let whole = (self.0 / Self::DECIMAL_FRACTIONAL).unsigned_abs();
+        let fractional = (self.0 % Self::DECIMAL_FRACTIONAL).unsigned_abs();
 
         if fractional == 0 {
-            write!(f, "{}", whole)
+            write!(f, "{}{}", sign, whole)
         } else {
             let fractional_string = alloc::format!(
                 "{:0>padding$}",
@@ -386,7 +396,8 @@ impl fmt::Display for Decimal {
                 padding = Self::DECIMAL_PLACES as usize
             );
             f.write_fmt(format_args!(
-                "{}.{}",
+                "{}{}.{}",
+                sign,
                 whole,
                 fractional_string.trim_end_matches('0')
             ))
-- 
2.43.0


From f42da5d286e21fcd20d980bb0fdfe89b473b6732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:03 +0000
Subject: [PATCH 16/22] fix: stop instead of wrapping in Decimal::abs_diff

---
 packages/decimal/src/decimal.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/decimal/src/decimal.rs b/packages/decimal/src/decimal.rs
index d0560ef..7cb7502 100644
--- a/packages/decimal/src/decimal.rs
+++ b/packages/decimal/src/decimal.rs
@@ -263,7 +263,9 @@ impl Decimal {
     }
 
     pub const fn abs_diff(self, other: Self) -> Self {
-        Self(self.0.abs_diff(other.0) as i128)
+        let diff = self.0.abs_diff(other.0);
+        assert!(diff <= i128::MAX as u128, "attempt to subtract with overflow");
+        Self(diff as i128)
     }
 }
 
-- 
2.43.0


From cf97d9135d885d403fc66eed313fb90cc9768a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:26 +0000
Subject: [PATCH 17/22] fix: keep the reward contract's distribution, curve and
 adjustment entries alive

---
 contracts/stake_rewards/src/distribution.rs | 77 ++++++++++++---------
 1 file changed, 46 insertions(+), 31 deletions(-)

diff --git a/contracts/stake_rewards/src/distribution.rs b/contracts/stake_rewards/src/distribution.rs
index 745607e..5f1fe8d 100644
--- a/contracts/stake_rewards/src/distribution.rs
+++ b/contracts/stake_rewards/src/distribution.rs
@@ -1,4 +1,7 @@
-use phoenix::utils::convert_i128_to_u128;
+use phoenix::{
+    ttl::{PERSISTENT_BUMP_AMOUNT, PERSISTENT_LIFETIME_THRESHOLD},
+    utils::convert_i128_to_u128,
+};
 use soroban_sdk::{contracttype, Address, Env, Vec};
 
 use curve::Curve;
@@ -38,17 +41,29 @@ pub enum DistributionDataKey {
     WithdrawAdjustment(WithdrawAdjustmentKey),
 }
 
+/// Keeps a stored entry alive; call only when it exists.
+fn extend_entry_ttl(env: &Env, key: &DistributionDataKey) {
+    env.storage().persistent().extend_ttl(
+        key,
+        PERSISTENT_LIFETIME_THRESHOLD,
+        PERSISTENT_BUMP_AMOUNT,
+    );
+}
+
 // one reward distribution curve over one denom
 pub fn save_reward_curve(env: &Env, asset: Address, distribution_curve: &Curve) {
-    env.storage()
-        .persistent()
-        .set(&DistributionDataKey::Curve(asset), distribution_curve);
+    let key = DistributionDataKey::Curve(asset);
+    env.storage().persistent().set(&key, distribution_curve);
+    extend_entry_ttl(env, &key);
 }
 
 pub fn get_reward_curve(env: &Env, asset: &Address) -> Option<Curve> {
-    env.storage()
-        .persistent()
-        .get(&DistributionDataKey::Curve(asset.clone()))
+    let key = DistributionDataKey::Curve(asset.clone());
+    let curve = env.storage().persistent().get(&key);
+    if curve.is_some() {
+        extend_entry_ttl(env, &key);
+    }
+    curve
 }
 
 #[contracttype]
@@ -69,17 +84,16 @@ pub struct Distribution {
 }
 
 pub fn save_distribution(env: &Env, asset: &Address, distribution: &Distribution) {
-    env.storage().persistent().set(
-        &DistributionDataKey::Distribution(asset.clone()),
-        distribution,
-    );
+    let key = DistributionDataKey::Distribution(asset.clone());
+    env.storage().persistent().set(&key, distribution);
+    extend_entry_ttl(env, &key);
 }
 
 pub fn get_distribution(env: &Env, asset: &Address) -> Distribution {
-    env.storage()
-        .persistent()
-        .get(&DistributionDataKey::Distribution(asset.clone()))
-        .unwrap()
+    let key = DistributionDataKey::Distribution(asset.clone());
+    let distribution = env.storage().persistent().get(&key).unwrap();
+    extend_entry_ttl(env, &key);
+    distribution
 }
 
 pub fn update_rewards(
@@ -138,13 +152,12 @@ pub fn save_withdraw_adjustment(
     distribution: &Address,
     adjustment: &WithdrawAdjustment,
 ) {
-    env.storage().persistent().set(
-        &DistributionDataKey::WithdrawAdjustment(WithdrawAdjustmentKey {
-            user: user.clone(),
-            asset: distribution.clone(),
-        }),
-        adjustment,
-    );
+    let key = DistributionDataKey::WithdrawAdjustment(WithdrawAdjustmentKey {
+        user: user.clone(),
+        asset: distribution.clone(),
+    });
+    env.storage().persistent().set(&key, adjustment);
+    extend_entry_ttl(env, &key);
 }
 
 pub fn get_withdraw_adjustment(
@@ -152,15 +165,17 @@ pub fn get_withdraw_adjustment(
     user: &Address,
     distribution: &Address,
 ) -> WithdrawAdjustment {
-    env.storage()
-        .persistent()
-        .get(&DistributionDataKey::WithdrawAdjustment(
-            WithdrawAdjustmentKey {
-                user: user.clone(),
-                asset: distribution.clone(),
-            },
-        ))
-        .unwrap_or_default()
+    let key = DistributionDataKey::WithdrawAdjustment(WithdrawAdjustmentKey {
+        user: user.clone(),
+        asset: distribution.clone(),
+    });
+    match env.storage().persistent().get(&key) {
+        Some(adjustment) => {
+            extend_entry_ttl(env, &key);
+            adjustment
+        }
+        None => WithdrawAdjustment::default(),
+    }
 }
 
 pub fn withdrawable_rewards(
-- 
2.43.0


From c5e94bf5368fbb2fce074a670a745d630e682ced Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:01 +0000
Subject: [PATCH 18/22] fix: keep a contract's instance alive when its code is
 replaced

---
 contracts/factory/src/contract.rs       | 4 ++++
 contracts/pool/src/contract.rs          | 8 ++++++++
 contracts/stake/src/contract.rs         | 5 +++++
 contracts/stake_rewards/src/contract.rs | 4 ++++
 contracts/vesting/src/contract.rs       | 4 ++++
 5 files changed, 25 insertions(+)

diff --git a/contracts/factory/src/contract.rs b/contracts/factory/src/contract.rs
index 6970225..1f6eab3 100644
--- a/contracts/factory/src/contract.rs
+++ b/contracts/factory/src/contract.rs
@@ -498,6 +498,10 @@ impl Factory {
         let admin = get_config(&env).admin;
         admin.require_auth();
 
+        env.storage()
+            .instance()
+            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);
+
         env.deployer().update_current_contract_wasm(new_wasm_hash);
         save_stable_wasm_hash(&env, new_stable_pool_hash);
     }
diff --git a/contracts/pool/src/contract.rs b/contracts/pool/src/contract.rs
index 8d30190..4eb332e 100644
--- a/contracts/pool/src/contract.rs
+++ b/contracts/pool/src/contract.rs
@@ -584,6 +584,10 @@ impl LiquidityPoolTrait for LiquidityPool {
         let admin: Address = utils::get_admin(&env);
         admin.require_auth();
 
+        env.storage()
+            .instance()
+            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);
+
         env.deployer().update_current_contract_wasm(new_wasm_hash);
         save_default_slippage_bps(&env, new_default_slippage_bps);
     }
@@ -781,6 +785,10 @@ impl LiquidityPool {
         let admin = get_admin(&env);
         admin.require_auth();
 
+        env.storage()
+            .instance()
+            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);
+
         env.deployer().update_current_contract_wasm(new_wasm_hash);
     }
 }
diff --git a/contracts/stake/src/contract.rs b/contracts/stake/src/contract.rs
index 3b667d4..8d5f62b 100644
--- a/contracts/stake/src/contract.rs
+++ b/contracts/stake/src/contract.rs
@@ -406,6 +406,11 @@ impl Staking {
     pub fn update(env: Env, new_wasm_hash: BytesN<32>) {
         let admin = get_admin(&env);
         admin.require_auth();
+
+        env.storage()
+            .instance()
+            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);
+
         env.deployer().update_current_contract_wasm(new_wasm_hash);
     }
 }
diff --git a/contracts/stake_rewards/src/contract.rs b/contracts/stake_rewards/src/contract.rs
index 5b1bfae..0f56f7a 100644
--- a/contracts/stake_rewards/src/contract.rs
+++ b/contracts/stake_rewards/src/contract.rs
@@ -543,6 +543,10 @@ impl StakingRewards {
         let admin = get_admin(&env);
         admin.require_auth();
 
+        env.storage()
+            .instance()
+            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);
+
         env.deployer().update_current_contract_wasm(new_wasm_hash);
     }
 }
diff --git a/contracts/vesting/src/contract.rs b/contracts/vesting/src/contract.rs
index dcd5051..ec0a3a1 100644
--- a/contracts/vesting/src/contract.rs
+++ b/contracts/vesting/src/contract.rs
@@ -473,6 +473,10 @@ impl VestingTrait for Vesting {
         let admin = get_admin(&env);
         admin.require_auth();
 
+        env.storage()
+            .instance()
+            .extend_ttl(INSTANCE_LIFETIME_THRESHOLD, INSTANCE_BUMP_AMOUNT);
+
         env.deployer().update_current_contract_wasm(new_wasm_hash);
     }
 }
-- 
2.43.0


From 567dee1192c953b3b3716c837c5c9b64a4af5246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:54 +0000
Subject: [PATCH 19/22] fix: compute products and ratios of large numbers
 exactly in Decimal

i128 * Decimal and Decimal::from_ratio stopped when the product scaled by 10^18 exceeded
128 bits, although the result fits: amounts above about 1.7e20 units (170 tokens of 18
decimals) could not be multiplied by or turned into a ratio, so that withdrawals from
pools and of rewards stopped.
---
 packages/decimal/src/decimal.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/packages/decimal/src/decimal.rs b/packages/decimal/src/decimal.rs
index 7cb7502..5e133de 100644
--- a/packages/decimal/src/decimal.rs
+++ b/packages/decimal/src/decimal.rs
@@ -241,7 +241,20 @@ impl Decimal {
         // let decimal_fractional = Self::DECIMAL_FRACTIONAL.to_bigint().unwrap();
 
         // Compute the ratio: (numerator * DECIMAL_FRACTIONAL) / denominator
-        let ratio = (numerator * Self::DECIMAL_FRACTIONAL) / denominator;
+        let ratio = match numerator.checked_mul(Self::DECIMAL_FRACTIONAL) {
+            Some(scaled) => scaled / denominator,
+            // too large to scale at once, divide digit by digit
+            None => {
+                let mut ratio = numerator / denominator;
+                let mut remainder = numerator % denominator;
+                for _ in 0..Self::DECIMAL_PLACES {
+                    remainder *= 10;
+                    ratio = ratio * 10 + remainder / denominator;
+                    remainder %= denominator;
+                }
+                ratio
+            }
+        };
 
         // Convert back to i128. If conversion fails, panic.
         // let ratio = ratio.to_i128().ok_or(Error::Overflow)?;
@@ -346,7 +359,9 @@ impl Mul<Decimal> for i128 {
         if self == 0i128 || rhs.is_zero() {
             return 0i128;
         }
-        self * rhs.0 / Decimal::DECIMAL_FRACTIONAL
+        // whole and fractional part apart, so that only the result has to fit
+        self / Decimal::DECIMAL_FRACTIONAL * rhs.0
+            + self % Decimal::DECIMAL_FRACTIONAL * rhs.0 / Decimal::DECIMAL_FRACTIONAL
     }
 }
 
-- 
2.43.0


From 0f79f50698a882c77d6ea135782ffbefc33ac67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:16:54 +0000
Subject: [PATCH 20/22] fix: pay reward shares whose product with the stake
 exceeds 128 bits

A stake times a distribution above 2^128 made the reward calculation stop. As unbonding
pays the rewards first, such a distribution locked the staked tokens of every staker.
Stakes too young to earn are skipped: the total at the time may not contain them and
their computed share may exceed any range.
---
 contracts/stake/src/distribution.rs | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/contracts/stake/src/distribution.rs b/contracts/stake/src/distribution.rs
index 18d310e..b8b4e68 100644
--- a/contracts/stake/src/distribution.rs
+++ b/contracts/stake/src/distribution.rs
@@ -1,5 +1,5 @@
 use soroban_decimal::Decimal;
-use soroban_sdk::{contracttype, Address, Env, Map};
+use soroban_sdk::{contracttype, Address, Env, Map, U256};
 
 use crate::storage::BondingInfo;
 use phoenix::ttl::{PERSISTENT_BUMP_AMOUNT, PERSISTENT_LIFETIME_THRESHOLD};
@@ -67,6 +67,18 @@ pub fn get_total_staked_history(e: &Env) -> Map<u64, u128> {
     total_staked_history
 }
 
+// The product of a stake and a reward may need more than 128 bits
+fn share_of_reward(env: &Env, stake: u128, daily_reward: u128, total_staked: u128) -> u128 {
+    match stake.checked_mul(daily_reward) {
+        Some(product) => product / total_staked,
+        None => U256::from_u128(env, stake)
+            .mul(&U256::from_u128(env, daily_reward))
+            .div(&U256::from_u128(env, total_staked))
+            .to_u128()
+            .unwrap(),
+    }
+}
+
 pub fn calculate_pending_rewards(
     env: &Env,
     reward_token: &Address,
@@ -96,11 +108,16 @@ pub fn calculate_pending_rewards(
                 if total_staked > 0 {
                     // Calculate multiplier based on the age of each stake
                     for stake in user_info.stakes.iter() {
-                        // Calculate the user's share of the total staked amount at the time
-                        let user_share = stake.stake as u128 * daily_reward / total_staked;
                         let stake_age_days = staking_reward_day
                             .saturating_sub(stake.stake_timestamp)
                             / SECONDS_PER_DAY;
+                        // the total may not contain a stake as young as this, and it earns nothing
+                        if stake_age_days == 0 {
+                            continue;
+                        }
+                        // Calculate the user's share of the total staked amount at the time
+                        let user_share =
+                            share_of_reward(env, stake.stake as u128, daily_reward, total_staked);
                         let multiplier = if stake_age_days >= 60 {
                             Decimal::one()
                         } else {
-- 
2.43.0


From ae942e37e837474777f98249b7eaba7f5daf9ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:40 +0000
Subject: [PATCH 21/22] fix: a reward schedule lasts its duration from its
 start on

---
 contracts/stake_rewards/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/stake_rewards/src/contract.rs b/contracts/stake_rewards/src/contract.rs
index 0f56f7a..b09066f 100644
--- a/contracts/stake_rewards/src/contract.rs
+++ b/contracts/stake_rewards/src/contract.rs
@@ -377,7 +377,7 @@ impl StakingRewardsTrait for StakingRewards {
         let reward_token_client = token_contract::Client::new(&env, &config.reward_token);
         reward_token_client.transfer(&admin, &env.current_contract_address(), &token_amount);
 
-        let end_time = current_time + distribution_duration;
+        let end_time = start_time + distribution_duration;
         // define a distribution curve starting at start_time with token_amount of tokens
         // and ending at end_time with 0 tokens
         let new_reward_distribution = Curve::saturating_linear(
-- 
2.43.0


From 1630dd5628ddf8ef0fac0505c1bff13b1b9e45f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:40 +0000
Subject: [PATCH 22/22] fix: refuse a reward schedule without a duration

---
 contracts/stake_rewards/src/contract.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/contracts/stake_rewards/src/contract.rs b/contracts/stake_rewards/src/contract.rs
index b09066f..89973b7 100644
--- a/contracts/stake_rewards/src/contract.rs
+++ b/contracts/stake_rewards/src/contract.rs
@@ -365,6 +365,15 @@ impl StakingRewardsTrait for StakingRewards {
             panic_with_error!(&env, ContractError::InvalidTime);
         }
 
+        // a schedule without a duration cannot be evaluated at its start
+        if distribution_duration == 0 {
+            log!(
+                &env,
+                "Stake rewards: Fund distribution: Fund distribution duration is zero"
+            );
+            panic_with_error!(&env, ContractError::InvalidTime);
+        }
+
         if config.min_reward > token_amount {
             log!(
                 &env,
-- 
2.43.0

