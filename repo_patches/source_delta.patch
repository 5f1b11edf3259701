From 27e237db4f6b0113766bea625e2aeabb3af55f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:04 +0000
Subject: [PATCH 01/27] fix: enforce min_assets_to_receive and
 min_lp_to_receive in concentrated, sale tax and transmuter pools

---
 contracts/pair_concentrated/src/contract.rs | 43 ++++++++++++++-
 contracts/pair_concentrated/src/error.rs    | 10 ++++
 contracts/pair_transmuter/src/contract.rs   | 58 ++++++++++++++++++++-
 contracts/pair_transmuter/src/error.rs      | 13 +++++
 contracts/pair_xyk_sale_tax/src/contract.rs | 57 +++++++++++++++++++-
 contracts/pair_xyk_sale_tax/src/error.rs    | 15 +++++-
 6 files changed, 190 insertions(+), 6 deletions(-)

diff --git a/contracts/pair_concentrated/src/contract.rs b/contracts/pair_concentrated/src/contract.rs
index 3d5dfb6..a440bad 100644
--- a/contracts/pair_concentrated/src/contract.rs
+++ b/contracts/pair_concentrated/src/contract.rs
@@ -366,7 +366,10 @@ pub fn execute(
             })
             .map_err(Into::into)
         }
-        ExecuteMsg::WithdrawLiquidity { assets, .. } => withdraw_liquidity(deps, env, info, assets),
+        ExecuteMsg::WithdrawLiquidity {
+            assets,
+            min_assets_to_receive,
+        } => withdraw_liquidity(deps, env, info, assets, min_assets_to_receive),
         _ => Err(ContractError::NotSupported {}),
     }
 }
@@ -552,11 +555,14 @@ pub fn provide_liquidity(
 /// * **sender** address that will receive assets back from the pair contract
 ///
 /// * **assets** defines number of coins a user wants to withdraw per each asset.
+///
+/// * **min_assets_to_receive** is an optional parameter which specifies the minimum amounts of assets to receive.
 fn withdraw_liquidity(
     deps: DepsMut,
     env: Env,
     info: MessageInfo,
     assets: Vec<Asset>,
+    min_assets_to_receive: Option<Vec<Asset>>,
 ) -> Result<Response, ContractError> {
     let mut config = CONFIG.load(deps.storage)?;
 
@@ -610,6 +616,8 @@ fn withdraw_liquidity(
         })
         .collect::<StdResult<Vec<_>>>()?;
 
+    ensure_min_assets_to_receive(&refund_assets, min_assets_to_receive)?;
+
     messages.extend(
         refund_assets
             .iter()
@@ -646,6 +654,39 @@ fn withdraw_liquidity(
     ]))
 }
 
+/// Checks that the withdrawn assets are not less than the amounts demanded by the user.
+/// The order of `min_assets_to_receive` does not matter.
+fn ensure_min_assets_to_receive(
+    refund_assets: &[Asset],
+    min_assets_to_receive: Option<Vec<Asset>>,
+) -> Result<(), ContractError> {
+    if let Some(min_assets_to_receive) = min_assets_to_receive {
+        if refund_assets.len() != min_assets_to_receive.len() {
+            return Err(ContractError::WrongAssetLength {
+                expected: refund_assets.len(),
+                actual: min_assets_to_receive.len(),
+            });
+        }
+
+        for min_asset in &min_assets_to_receive {
+            let refund_asset = refund_assets
+                .iter()
+                .find(|asset| asset.info == min_asset.info)
+                .ok_or_else(|| ContractError::InvalidAsset(min_asset.info.to_string()))?;
+
+            if refund_asset.amount < min_asset.amount {
+                return Err(ContractError::WithdrawSlippageViolation {
+                    asset_name: refund_asset.info.to_string(),
+                    received: refund_asset.amount,
+                    expected: min_asset.amount,
+                });
+            }
+        }
+    }
+
+    Ok(())
+}
+
 /// Performs an swap operation with the specified parameters. The trader must approve the
 /// pool contract to transfer offer assets from their wallet.
 ///
diff --git a/contracts/pair_concentrated/src/error.rs b/contracts/pair_concentrated/src/error.rs
index b4e0cd5..002c357 100644
--- a/contracts/pair_concentrated/src/error.rs
+++ b/contracts/pair_concentrated/src/error.rs
@@ -70,6 +70,16 @@ pub enum ContractError {
     #[error("Slippage is more than expected: received {0}, expected {1} LP tokens")]
     ProvideSlippageViolation(Uint128, Uint128),
 
+    #[error("Slippage is more than expected: received {received} {asset_name}, expected {expected} {asset_name}")]
+    WithdrawSlippageViolation {
+        asset_name: String,
+        received: Uint128,
+        expected: Uint128,
+    },
+
+    #[error("Wrong asset length: expected {expected}, actual {actual}")]
+    WrongAssetLength { expected: usize, actual: usize },
+
     #[error("Operation is not supported")]
     NotSupported {},
 }
diff --git a/contracts/pair_transmuter/src/contract.rs b/contracts/pair_transmuter/src/contract.rs
index ae87870..3ff2c3e 100644
--- a/contracts/pair_transmuter/src/contract.rs
+++ b/contracts/pair_transmuter/src/contract.rs
@@ -108,6 +108,7 @@ pub fn execute(
             assets,
             auto_stake,
             receiver,
+            min_lp_to_receive,
             ..
         } => {
             ensure!(
@@ -115,7 +116,7 @@ pub fn execute(
                 StdError::generic_err("Auto stake is not supported")
             );
 
-            provide_liquidity(deps, env, info, assets, receiver)
+            provide_liquidity(deps, env, info, assets, receiver, min_lp_to_receive)
         }
         ExecuteMsg::Swap {
             offer_asset,
@@ -123,7 +124,10 @@ pub fn execute(
             ask_asset_info,
             ..
         } => swap(deps, info, offer_asset, ask_asset_info, to),
-        ExecuteMsg::WithdrawLiquidity { assets, .. } => withdraw_liquidity(deps, env, info, assets),
+        ExecuteMsg::WithdrawLiquidity {
+            assets,
+            min_assets_to_receive,
+        } => withdraw_liquidity(deps, env, info, assets, min_assets_to_receive),
         _ => Err(ContractError::NotSupported {}),
     }
 }
@@ -133,11 +137,15 @@ pub fn execute(
 /// All unused LP tokens will be sent back to the sender.
 ///
 /// * **assets** is the vector of assets to withdraw. If this vector is empty, the function will withdraw balanced respective to share.
+///
+/// * **min_assets_to_receive** is an optional parameter which specifies the minimum amounts of assets to receive.
+/// The refunded assets must be listed.
 pub fn withdraw_liquidity(
     deps: DepsMut,
     env: Env,
     info: MessageInfo,
     assets: Vec<Asset>,
+    min_assets_to_receive: Option<Vec<Asset>>,
 ) -> Result<Response, ContractError> {
     let config = CONFIG.load(deps.storage)?;
 
@@ -201,6 +209,8 @@ pub fn withdraw_liquidity(
         assets
     };
 
+    ensure_min_assets_to_receive(&refund_assets, min_assets_to_receive)?;
+
     let send_msgs = refund_assets
         .clone()
         .into_iter()
@@ -220,17 +230,53 @@ pub fn withdraw_liquidity(
     ]))
 }
 
+/// Checks that the withdrawn assets are not less than the amounts demanded by the user.
+/// The order of `min_assets_to_receive` does not matter.
+fn ensure_min_assets_to_receive(
+    refund_assets: &[Asset],
+    min_assets_to_receive: Option<Vec<Asset>>,
+) -> Result<(), ContractError> {
+    if let Some(min_assets_to_receive) = min_assets_to_receive {
+        if refund_assets.len() != min_assets_to_receive.len() {
+            return Err(ContractError::WrongAssetLength {
+                expected: refund_assets.len(),
+                actual: min_assets_to_receive.len(),
+            });
+        }
+
+        for min_asset in &min_assets_to_receive {
+            let refund_asset = refund_assets
+                .iter()
+                .find(|asset| asset.info == min_asset.info)
+                .ok_or_else(|| ContractError::InvalidAsset(min_asset.info.to_string()))?;
+
+            if refund_asset.amount < min_asset.amount {
+                return Err(ContractError::WithdrawSlippageViolation {
+                    asset_name: refund_asset.info.to_string(),
+                    received: refund_asset.amount,
+                    expected: min_asset.amount,
+                });
+            }
+        }
+    }
+
+    Ok(())
+}
+
 /// Provides liquidity with the specified input parameters.
 ///
 /// * **assets** vector with assets meant to be provided to the pool.
 ///
 /// * **receiver** address that receives LP tokens. If this address isn't specified, the function will default to the caller.
+///
+/// * **min_lp_to_receive** is an optional parameter which specifies the minimum amount of LP tokens to receive.
 pub fn provide_liquidity(
     deps: DepsMut,
     env: Env,
     info: MessageInfo,
     assets: Vec<Asset>,
     receiver: Option<String>,
+    min_lp_to_receive: Option<Uint128>,
 ) -> Result<Response, ContractError> {
     check_assets(deps.api, &assets)?;
 
@@ -244,6 +290,14 @@ pub fn provide_liquidity(
         .map(|asset| config.normalize(asset).unwrap())
         .fold(Uint128::zero(), |acc, asset| acc + asset.amount);
 
+    let min_amount_lp = min_lp_to_receive.unwrap_or_default();
+    if share < min_amount_lp {
+        return Err(ContractError::ProvideSlippageViolation(
+            share,
+            min_amount_lp,
+        ));
+    }
+
     // Mint LP token for the caller (or for the receiver if it was set)
     let receiver = addr_opt_validate(deps.api, &receiver)?.unwrap_or_else(|| info.sender.clone());
 
diff --git a/contracts/pair_transmuter/src/error.rs b/contracts/pair_transmuter/src/error.rs
index bf76c08..75f6e8a 100644
--- a/contracts/pair_transmuter/src/error.rs
+++ b/contracts/pair_transmuter/src/error.rs
@@ -56,4 +56,17 @@ pub enum ContractError {
 
     #[error("ask_asset_info must be set for pools with >2 assets")]
     AskAssetMustBeSet {},
+
+    #[error("Slippage is more than expected: received {0}, expected {1} LP tokens")]
+    ProvideSlippageViolation(Uint128, Uint128),
+
+    #[error("Slippage is more than expected: received {received} {asset_name}, expected {expected} {asset_name}")]
+    WithdrawSlippageViolation {
+        asset_name: String,
+        received: Uint128,
+        expected: Uint128,
+    },
+
+    #[error("Wrong asset length: expected {expected}, actual {actual}")]
+    WrongAssetLength { expected: usize, actual: usize },
 }
diff --git a/contracts/pair_xyk_sale_tax/src/contract.rs b/contracts/pair_xyk_sale_tax/src/contract.rs
index 2e889d8..b91586e 100644
--- a/contracts/pair_xyk_sale_tax/src/contract.rs
+++ b/contracts/pair_xyk_sale_tax/src/contract.rs
@@ -229,7 +229,7 @@ pub fn execute(
             slippage_tolerance,
             auto_stake,
             receiver,
-            ..
+            min_lp_to_receive,
         } => provide_liquidity(
             deps,
             env,
@@ -238,6 +238,7 @@ pub fn execute(
             slippage_tolerance,
             auto_stake,
             receiver,
+            min_lp_to_receive,
         ),
         ExecuteMsg::Swap {
             offer_asset,
@@ -265,7 +266,10 @@ pub fn execute(
             )
         }
         ExecuteMsg::UpdateConfig { params } => update_config(deps, info, params),
-        ExecuteMsg::WithdrawLiquidity { assets, .. } => withdraw_liquidity(deps, env, info, assets),
+        ExecuteMsg::WithdrawLiquidity {
+            assets,
+            min_assets_to_receive,
+        } => withdraw_liquidity(deps, env, info, assets, min_assets_to_receive),
         _ => Err(ContractError::NonSupported {}),
     }
 }
@@ -335,6 +339,8 @@ pub fn receive_cw20(
 /// * **receiver** is an optional parameter which defines the receiver of the LP tokens.
 /// If no custom receiver is specified, the pair will mint LP tokens for the function caller.
 ///
+/// * **min_lp_to_receive** is an optional parameter which specifies the minimum amount of LP tokens to receive.
+///
 /// NOTE - the address that wants to provide liquidity should approve the pair contract to pull its relevant tokens.
 pub fn provide_liquidity(
     deps: DepsMut,
@@ -344,6 +350,7 @@ pub fn provide_liquidity(
     slippage_tolerance: Option<Decimal>,
     auto_stake: Option<bool>,
     receiver: Option<String>,
+    min_lp_to_receive: Option<Uint128>,
 ) -> Result<Response, ContractError> {
     let mut config = CONFIG.load(deps.storage)?;
 
@@ -383,6 +390,14 @@ pub fn provide_liquidity(
 
     let share = calculate_shares(&deposits, &pools, total_share, slippage_tolerance)?;
 
+    let min_amount_lp = min_lp_to_receive.unwrap_or_default();
+    if share < min_amount_lp {
+        return Err(ContractError::ProvideSlippageViolation(
+            share,
+            min_amount_lp,
+        ));
+    }
+
     if total_share.is_zero() {
         messages.extend(mint_liquidity_token_message(
             deps.querier,
@@ -487,11 +502,14 @@ where
 /// * **sender** is the address that will receive assets back from the pair contract.
 ///
 /// * **amount** is the amount of LP tokens to burn.
+///
+/// * **min_assets_to_receive** is an optional parameter which specifies the minimum amounts of assets to receive.
 pub fn withdraw_liquidity(
     deps: DepsMut,
     env: Env,
     info: MessageInfo,
     assets: Vec<Asset>,
+    min_assets_to_receive: Option<Vec<Asset>>,
 ) -> Result<Response, ContractError> {
     let mut config = CONFIG.load(deps.storage).unwrap();
 
@@ -512,6 +530,8 @@ pub fn withdraw_liquidity(
         return Err(StdError::generic_err("Imbalanced withdraw is currently disabled").into());
     };
 
+    ensure_min_assets_to_receive(&refund_assets, min_assets_to_receive)?;
+
     if config.track_asset_balances {
         for (i, pool) in pools.iter().enumerate() {
             BALANCES.save(
@@ -555,6 +575,39 @@ pub fn withdraw_liquidity(
     ]))
 }
 
+/// Checks that the withdrawn assets are not less than the amounts demanded by the user.
+/// The order of `min_assets_to_receive` does not matter.
+fn ensure_min_assets_to_receive(
+    refund_assets: &[Asset],
+    min_assets_to_receive: Option<Vec<Asset>>,
+) -> Result<(), ContractError> {
+    if let Some(min_assets_to_receive) = min_assets_to_receive {
+        if refund_assets.len() != min_assets_to_receive.len() {
+            return Err(ContractError::WrongAssetLength {
+                expected: refund_assets.len(),
+                actual: min_assets_to_receive.len(),
+            });
+        }
+
+        for min_asset in &min_assets_to_receive {
+            let refund_asset = refund_assets
+                .iter()
+                .find(|asset| asset.info == min_asset.info)
+                .ok_or_else(|| ContractError::AssetMismatch {})?;
+
+            if refund_asset.amount < min_asset.amount {
+                return Err(ContractError::WithdrawSlippageViolation {
+                    asset_name: refund_asset.info.to_string(),
+                    received: refund_asset.amount,
+                    expected: min_asset.amount,
+                });
+            }
+        }
+    }
+
+    Ok(())
+}
+
 /// Returns the amount of pool assets that correspond to an amount of LP tokens.
 ///
 /// * **pools** is the array with assets in the pool.
diff --git a/contracts/pair_xyk_sale_tax/src/error.rs b/contracts/pair_xyk_sale_tax/src/error.rs
index cfdb47e..00e21a5 100644
--- a/contracts/pair_xyk_sale_tax/src/error.rs
+++ b/contracts/pair_xyk_sale_tax/src/error.rs
@@ -1,5 +1,5 @@
 use astroport::asset::MINIMUM_LIQUIDITY_AMOUNT;
-use cosmwasm_std::{OverflowError, StdError};
+use cosmwasm_std::{OverflowError, StdError, Uint128};
 use cw_utils::{ParseReplyError, PaymentError};
 use thiserror::Error;
 
@@ -56,6 +56,19 @@ pub enum ContractError {
 
     #[error("Failed to parse or process reply message")]
     FailedToParseReply {},
+
+    #[error("Slippage is more than expected: received {0}, expected {1} LP tokens")]
+    ProvideSlippageViolation(Uint128, Uint128),
+
+    #[error("Slippage is more than expected: received {received} {asset_name}, expected {expected} {asset_name}")]
+    WithdrawSlippageViolation {
+        asset_name: String,
+        received: Uint128,
+        expected: Uint128,
+    },
+
+    #[error("Wrong asset length: expected {expected}, actual {actual}")]
+    WrongAssetLength { expected: usize, actual: usize },
 }
 
 impl From<OverflowError> for ContractError {
-- 
2.43.0


From 24fe858f3d76239b0ba72f66794f8046f959a253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 02/27] fix: accumulate stable pool prices with reserves before
 the deposit

---
 contracts/pair_stable/src/contract.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/contracts/pair_stable/src/contract.rs b/contracts/pair_stable/src/contract.rs
index 332edbc..fd2c1f2 100644
--- a/contracts/pair_stable/src/contract.rs
+++ b/contracts/pair_stable/src/contract.rs
@@ -392,6 +392,18 @@ pub fn provide_liquidity(
 
     let auto_stake = auto_stake.unwrap_or(false);
 
+    // Prices must be accumulated using pool balances before the deposit
+    let pools = assets_collection
+        .iter()
+        .map(|(deposit, pool)| {
+            let precision = get_precision(deps.storage, &deposit.info)?;
+            Ok(DecimalAsset {
+                info: deposit.info.clone(),
+                amount: Decimal256::with_precision(*pool, precision)?,
+            })
+        })
+        .collect::<StdResult<Vec<_>>>()?;
+
     let share = calculate_shares(deps.as_ref(), &env, &config, total_share, assets_collection)?;
 
     if total_share.is_zero() {
@@ -425,17 +437,6 @@ pub fn provide_liquidity(
         auto_stake,
     )?);
 
-    let pools = pools
-        .into_iter()
-        .map(|(info, amount)| {
-            let precision = get_precision(deps.storage, &info)?;
-            Ok(DecimalAsset {
-                info,
-                amount: Decimal256::with_precision(amount, precision)?,
-            })
-        })
-        .collect::<StdResult<Vec<_>>>()?;
-
     if accumulate_prices(deps.storage, &env, &mut config, &pools)? {
         CONFIG.save(deps.storage, &config)?;
     }
-- 
2.43.0


From e3b062e52589423b7a439750fd4f5b15f8ca1b6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:41 +0000
Subject: [PATCH 03/27] fix: reject concentrated pool mid_fee update exceeding
 out_fee

---
 packages/astroport_pcl_common/src/state.rs | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index 95d67cd..406a709 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -98,17 +98,21 @@ impl PoolParams {
 
         if let Some(out_fee) = update_params.out_fee {
             validate_param("out_fee", out_fee, MIN_FEE, MAX_FEE)?;
-            if out_fee <= self.mid_fee {
-                return Err(StdError::generic_err(format!(
-                    "out_fee {out_fee} must be more than mid_fee {}",
-                    self.mid_fee
-                ))
-                .into());
-            }
             self.out_fee = out_fee;
             attributes.push(attr("out_fee", out_fee.to_string()));
         }
 
+        // This must hold no matter which of the fees has been updated
+        if (update_params.mid_fee.is_some() || update_params.out_fee.is_some())
+            && self.out_fee <= self.mid_fee
+        {
+            return Err(StdError::generic_err(format!(
+                "out_fee {} must be more than mid_fee {}",
+                self.out_fee, self.mid_fee
+            ))
+            .into());
+        }
+
         if let Some(fee_gamma) = update_params.fee_gamma {
             validate_param("fee_gamma", fee_gamma, FEE_GAMMA_MIN, FEE_GAMMA_MAX)?;
             self.fee_gamma = fee_gamma;
-- 
2.43.0


From af39cb96f482a618034e4d31005c0512382eb84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 04/27] fix: compare raw amounts and round up in transmuter
 reverse simulation

---
 contracts/pair_transmuter/src/queries.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/contracts/pair_transmuter/src/queries.rs b/contracts/pair_transmuter/src/queries.rs
index b07f8e8..4e04231 100644
--- a/contracts/pair_transmuter/src/queries.rs
+++ b/contracts/pair_transmuter/src/queries.rs
@@ -118,11 +118,14 @@ pub fn reverse_swap(
         .find(|asset| asset.info == ask_asset.info)
         .ok_or_else(|| ContractError::InvalidAsset(ask_asset.info.to_string()))?;
 
-    let ask_asset = config.normalize(&ask_asset)?;
-
     if ask_pool.amount >= ask_asset.amount {
-        let offer_asset = offer_asset_info.with_balance(ask_asset.amount);
-        config.denormalize(&offer_asset).map(|asset| asset.amount)
+        let required = offer_asset_info.with_balance(config.normalize(&ask_asset)?.amount);
+        let mut offer_asset = config.denormalize(&required)?;
+        // Round up if the offer asset is not precise enough to pay exactly for the ask amount
+        if config.normalize(&offer_asset)?.amount < required.amount {
+            offer_asset.amount += Uint128::one();
+        }
+        Ok(offer_asset.amount)
     } else {
         Err(ContractError::InsufficientPoolBalance {
             asset: ask_asset.info.to_string(),
-- 
2.43.0


From 5c686336a4757c2e7617b5bc8db18557c49626d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:56 +0000
Subject: [PATCH 05/27] fix: do not divide by zero in repegging when oracle
 price equals price scale

---
 packages/astroport_pcl_common/src/state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index 406a709..65e2a5c 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -359,7 +359,9 @@ impl PoolState {
         let scale_delta = Decimal256::from(pool_params.min_price_scale_delta)
             .max(norm * Decimal256::from_ratio(1u8, 10u8));
 
-        if norm >= scale_delta
+        // If the oracle price equals the price scale then there is nothing to adjust
+        if !norm.is_zero()
+            && norm >= scale_delta
             && price_state.xcp_profit_real - Decimal256::one()
                 > (xcp_profit - Decimal256::one()) / TWO
                     + Decimal256::from(pool_params.repeg_profit_threshold)
-- 
2.43.0


From 337b48380259b31a9ae60c4d0062f8b6d3382b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:51 +0000
Subject: [PATCH 06/27] fix: do not underflow in repegging when xcp profit fell
 below one during a ramp

---
 packages/astroport_pcl_common/src/state.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index 65e2a5c..800fe4f 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -362,8 +362,10 @@ impl PoolState {
         // If the oracle price equals the price scale then there is nothing to adjust
         if !norm.is_zero()
             && norm >= scale_delta
-            && price_state.xcp_profit_real - Decimal256::one()
-                > (xcp_profit - Decimal256::one()) / TWO
+            && price_state
+                .xcp_profit_real
+                .saturating_sub(Decimal256::one())
+                > xcp_profit.saturating_sub(Decimal256::one()) / TWO
                     + Decimal256::from(pool_params.repeg_profit_threshold)
         {
             let numerator = price_state.price_scale * (norm - scale_delta)
-- 
2.43.0


From 3d1e215107ca8dd1c4a00647bcfd6a2b648638ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:10 +0000
Subject: [PATCH 07/27] fix: keep price scale from collapsing in repegging when
 oracle price is next to it

---
 packages/astroport_pcl_common/src/state.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index 800fe4f..7fc485a 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -368,9 +368,9 @@ impl PoolState {
                 > xcp_profit.saturating_sub(Decimal256::one()) / TWO
                     + Decimal256::from(pool_params.repeg_profit_threshold)
         {
-            let numerator = price_state.price_scale * (norm - scale_delta)
-                + scale_delta * price_state.oracle_price;
-            let price_scale_new = numerator / norm;
+            // Weights are calculated first because products with a tiny norm would lose all their digits
+            let price_scale_new = price_state.price_scale * ((norm - scale_delta) / norm)
+                + price_state.oracle_price * (scale_delta / norm);
 
             let xs = [
                 cur_xs[0],
-- 
2.43.0


From 5cae564b49570e24a6e84c19be047dba1049558a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:13 +0000
Subject: [PATCH 08/27] fix: moving average of observations drops the oldest
 value of the full buffer

---
 contracts/pair_concentrated/src/utils.rs     | 4 ++--
 contracts/pair_concentrated_inj/src/utils.rs | 4 ++--
 contracts/pair_stable/src/utils.rs           | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/contracts/pair_concentrated/src/utils.rs b/contracts/pair_concentrated/src/utils.rs
index 4a64a15..41abcb0 100644
--- a/contracts/pair_concentrated/src/utils.rs
+++ b/contracts/pair_concentrated/src/utils.rs
@@ -69,9 +69,9 @@ pub fn accumulate_swap_sizes(storage: &mut dyn Storage, env: &Env) -> BufferResu
         if let Some(last_obs) = buffer.read_last(storage)? {
             // Skip saving observation if it has been already saved
             if last_obs.ts < precommit_ts {
-                // Since this is circular buffer the next index contains the oldest value
+                // Since this is circular buffer the head index contains the oldest value
                 let count = buffer.capacity();
-                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head() + 1)? {
+                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head())? {
                     let price_sma = safe_sma_calculation(
                         last_obs.price_sma,
                         oldest_obs.price,
diff --git a/contracts/pair_concentrated_inj/src/utils.rs b/contracts/pair_concentrated_inj/src/utils.rs
index 80f087e..4257919 100644
--- a/contracts/pair_concentrated_inj/src/utils.rs
+++ b/contracts/pair_concentrated_inj/src/utils.rs
@@ -96,9 +96,9 @@ pub fn accumulate_swap_sizes(
         if let Some(last_obs) = buffer.read_last(storage)? {
             // Skip saving observation if it has been already saved
             if last_obs.ts < precommit_ts {
-                // Since this is circular buffer the next index contains the oldest value
+                // Since this is circular buffer the head index contains the oldest value
                 let count = buffer.capacity();
-                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head() + 1)? {
+                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head())? {
                     let new_base_sma = safe_sma_calculation(
                         last_obs.base_sma,
                         oldest_obs.base_amount,
diff --git a/contracts/pair_stable/src/utils.rs b/contracts/pair_stable/src/utils.rs
index 71341e2..2e90587 100644
--- a/contracts/pair_stable/src/utils.rs
+++ b/contracts/pair_stable/src/utils.rs
@@ -346,9 +346,9 @@ pub fn accumulate_swap_sizes(storage: &mut dyn Storage, env: &Env) -> BufferResu
         if let Some(last_obs) = buffer.read_last(storage)? {
             // Skip saving observation if it has been already saved
             if last_obs.ts < precommit_ts {
-                // Since this is circular buffer the next index contains the oldest value
+                // Since this is circular buffer the head index contains the oldest value
                 let count = buffer.capacity();
-                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head() + 1)? {
+                if let Some(oldest_obs) = buffer.read_single(storage, buffer.head())? {
                     let price_sma = safe_sma_calculation(
                         last_obs.price_sma,
                         oldest_obs.price,
-- 
2.43.0


From 7ce0012a482bc58ab7d20f267d0ba6ac6fbab2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 09/27] fix: do not account orphaned rewards twice when
 deregistering reward

---
 contracts/tokenomics/incentives/src/state.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index d06659a..d003e1b 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -379,9 +379,11 @@ impl PoolInfo {
             .iter()
             .find_position(|reward| matches!(&reward.reward, RewardType::Ext { info, .. } if info == reward_asset))
             .ok_or_else(|| ContractError::RewardNotFound { pool: lp_asset.to_string(), reward: reward_asset.to_string() })?;
+        // Orphaned rewards are part of the amount returned from this function
+        // hence they must not be accumulated in ORPHANED_REWARDS
         self.rewards_to_remove.insert(
             reward_info.reward.clone(),
-            (reward_info.index, reward_info.orphaned),
+            (reward_info.index, Decimal256::zero()),
         );
         let reward_info = self.rewards.remove(pos);
 
-- 
2.43.0


From 299ea9c1cc76a8a5fbd4047013811a0ef6e5db1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 10/27] fix: keep all reward indexes finished in the same block

---
 contracts/tokenomics/incentives/src/state.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index d003e1b..663b91c 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -455,11 +455,18 @@ impl PoolInfo {
                         let finished_indexes = group
                             .map(|(reward_asset_info, (index, _))| (reward_asset_info, index))
                             .collect_vec();
-                        FINISHED_REWARD_INDEXES.save(
-                            storage,
-                            (lp_token, self.last_update_ts),
-                            &finished_indexes,
-                        )
+                        // Other rewards could have been finished in the same block
+                        FINISHED_REWARD_INDEXES
+                            .update::<_, StdError>(
+                                storage,
+                                (lp_token, self.last_update_ts),
+                                |stored| {
+                                    let mut stored = stored.unwrap_or_default();
+                                    stored.extend(finished_indexes);
+                                    Ok(stored)
+                                },
+                            )
+                            .map(|_| ())
                     } else {
                         // Processing finished schedules with orphaned rewards
                         for (reward, (_, orphaned_amount)) in group {
-- 
2.43.0


From 67efffb21412c1b2214874fb7f94187c7b8bc4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 11/27] fix: reset user index of rewards removed in the block
 of the last claim

---
 contracts/tokenomics/incentives/src/state.rs | 25 +++++++++++++-------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index 663b91c..3c45f5e 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -572,7 +572,8 @@ impl UserInfo {
     /// This function is called after processing finished schedules and before processing active
     /// schedules for a specific user.
     /// The idea is as follows:
-    /// - get all finished rewards from FINISHED_REWARDS_INDEXES which finished after last time when user claimed rewards
+    /// - get all finished rewards from FINISHED_REWARDS_INDEXES which finished since last time when user claimed rewards
+    /// (including the block of the last claim, as rewards can be removed after it)
     /// - merge them with rewards_to_remove
     /// - iterate over all finished rewards and set user index to 0.
     pub fn reset_user_index(
@@ -585,7 +586,7 @@ impl UserInfo {
             .prefix(lp_token)
             .range(
                 storage,
-                Some(Bound::exclusive(self.last_claim_time)),
+                Some(Bound::inclusive(self.last_claim_time)),
                 None,
                 Order::Ascending,
             )
@@ -618,6 +619,8 @@ impl UserInfo {
     /// - merge them with rewards_to_remove
     /// - iterate over all user indexes and find differences. If user doesn't have index for deregistered reward then
     /// they never claimed it and their index defaults to 0.
+    /// - rewards deregistered in the block of the last claim were claimed in full. They only mark that user index
+    /// doesn't belong to the subsequent schedules.
     pub fn claim_finished_rewards(
         &self,
         storage: &dyn Storage,
@@ -628,19 +631,23 @@ impl UserInfo {
             .prefix(lp_token)
             .range(
                 storage,
-                Some(Bound::exclusive(self.last_claim_time)),
+                Some(Bound::inclusive(self.last_claim_time)),
                 None,
                 Order::Ascending,
             )
-            .map(|res| res.map(|(_, indexes)| indexes))
             .collect::<StdResult<Vec<_>>>()?
             .into_iter()
-            .flatten();
+            .flat_map(|(finished_ts, indexes)| {
+                let already_claimed = finished_ts == self.last_claim_time;
+                indexes
+                    .into_iter()
+                    .map(move |(reward, index)| (reward, (index, already_claimed)))
+            });
 
         let to_remove_iter = pool_info
             .rewards_to_remove
             .iter()
-            .map(|(reward, (index, _))| (reward.asset_info().clone(), *index));
+            .map(|(reward, (index, _))| (reward.asset_info().clone(), (*index, false)));
 
         let lp_tokens_amount = Uint256::from(self.amount);
 
@@ -652,9 +659,11 @@ impl UserInfo {
                 indexes_group
                     .into_iter()
                     .enumerate()
-                    .map(|(i, (reward_info, finished_index))| {
+                    .map(|(i, (reward_info, (finished_index, already_claimed)))| {
                         // User could have claimed this reward from the first schedule before it was finished
-                        let amount = if i == 0 {
+                        let amount = if already_claimed {
+                            Uint256::zero()
+                        } else if i == 0 {
                             let user_reward_index = self
                                 .last_rewards_index
                                 .iter()
-- 
2.43.0


From a06937c2df1cd7aed1f0daff5f372e9ee3027a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 12/27] fix: disable pool once when both of its tokens are
 being blocked

---
 contracts/tokenomics/incentives/src/execute.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/execute.rs b/contracts/tokenomics/incentives/src/execute.rs
index 63cee31..5356149 100644
--- a/contracts/tokenomics/incentives/src/execute.rs
+++ b/contracts/tokenomics/incentives/src/execute.rs
@@ -522,7 +522,9 @@ fn update_blocked_pool_tokens(
                 }
 
                 for (lp_asset, asset_infos, alloc_points) in &active_pools {
-                    if asset_infos.contains(token_to_block) {
+                    if asset_infos.contains(token_to_block)
+                        && !to_disable.iter().any(|(lp, _)| lp == lp_asset)
+                    {
                         to_disable.push((lp_asset.clone(), alloc_points));
                     }
                 }
-- 
2.43.0


From 61e66c5c4c7d86b8302f49e9ae40353dca57282c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 13/27] fix: deactivate pool while emissions are set to zero

---
 contracts/tokenomics/incentives/src/utils.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/utils.rs b/contracts/tokenomics/incentives/src/utils.rs
index d213c5a..cf29a6a 100644
--- a/contracts/tokenomics/incentives/src/utils.rs
+++ b/contracts/tokenomics/incentives/src/utils.rs
@@ -112,16 +112,16 @@ pub fn deactivate_pool(
 
     let lp_token_asset = determine_asset_info(&lp_token, deps.api)?;
 
-    match PoolInfo::may_load(deps.storage, &lp_token_asset)? {
-        Some(mut pool_info) if pool_info.is_active_pool() => {
-            let mut active_pools = ACTIVE_POOLS.load(deps.storage)?;
-
-            let (ind, _) = active_pools
-                .iter()
-                .find_position(|(lp_asset, _)| lp_asset == &lp_token_asset)
-                .unwrap();
+    let mut active_pools = ACTIVE_POOLS.load(deps.storage)?;
+
+    match active_pools
+        .iter()
+        .position(|(lp_asset, _)| lp_asset == &lp_token_asset)
+    {
+        Some(ind) => {
             let (_, alloc_points) = active_pools.swap_remove(ind);
 
+            let mut pool_info = PoolInfo::load(deps.storage, &lp_token_asset)?;
             pool_info.update_rewards(deps.storage, &env, &lp_token_asset)?;
             pool_info.disable_astro_rewards();
             pool_info.save(deps.storage, &lp_token_asset)?;
@@ -143,7 +143,7 @@ pub fn deactivate_pool(
                 attr("lp_token", lp_token),
             ]))
         }
-        _ => Ok(Response::new()),
+        None => Ok(Response::new()),
     }
 }
 
-- 
2.43.0


From ce570cc8a60a0fe6540aa9069fec723afd0255e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 14/27] fix: enforce reward tokens limit when ASTRO is one of
 external rewards

---
 contracts/tokenomics/incentives/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index 3c45f5e..a13f337 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -280,7 +280,7 @@ impl PoolInfo {
 
         // Check that we don't exceed the maximum number of reward tokens per pool.
         // Allowing ASTRO reward to exceed this limit
-        if ext_rewards_len == MAX_REWARD_TOKENS as usize
+        if ext_rewards_len >= MAX_REWARD_TOKENS as usize
             && maybe_active_schedule.is_none()
             && schedule.reward_info.ne(astro_token)
         {
-- 
2.43.0


From b41a3a05befca1bf5fc160742f477dd79e9f9dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:06 +0000
Subject: [PATCH 15/27] fix: cap stakers page size

---
 contracts/tokenomics/incentives/src/state.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index a13f337..d004e33 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -505,7 +505,7 @@ pub fn list_pool_stakers(
     limit: Option<u8>,
 ) -> StdResult<Vec<(Addr, Uint128)>> {
     let start = start_after.as_ref().map(Bound::exclusive);
-    let limit = limit.unwrap_or(MAX_PAGE_LIMIT).max(MAX_PAGE_LIMIT);
+    let limit = limit.unwrap_or(MAX_PAGE_LIMIT).min(MAX_PAGE_LIMIT);
     USER_INFO
         .prefix(lp_token)
         .range(storage, start, None, Order::Ascending)
-- 
2.43.0


From e7fad32e6d1c169d2fe2d2578a3bc55d02f23597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:38 +0000
Subject: [PATCH 16/27] fix: do not resume bypassed schedules when reward is
 added again

---
 contracts/tokenomics/incentives/src/state.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/contracts/tokenomics/incentives/src/state.rs b/contracts/tokenomics/incentives/src/state.rs
index d004e33..c5e0835 100644
--- a/contracts/tokenomics/incentives/src/state.rs
+++ b/contracts/tokenomics/incentives/src/state.rs
@@ -349,6 +349,22 @@ impl PoolInfo {
             // New schedule anyway hits an active one
             active_schedule.rps += schedule.rps;
         } else {
+            // Reward could have been deregistered with bypassed upcoming schedules.
+            // Remove them so that they don't follow the new schedule.
+            let bypassed_schedules = EXTERNAL_REWARD_SCHEDULES
+                .prefix((lp_asset, &schedule.reward_info))
+                .keys(
+                    storage,
+                    Some(Bound::exclusive(self.last_update_ts)),
+                    None,
+                    Order::Ascending,
+                )
+                .collect::<StdResult<Vec<_>>>()?;
+            for update_ts in bypassed_schedules {
+                EXTERNAL_REWARD_SCHEDULES
+                    .remove(storage, (lp_asset, &schedule.reward_info, update_ts));
+            }
+
             self.rewards.push(RewardInfo {
                 reward: RewardType::Ext {
                     info: schedule.reward_info.clone(),
-- 
2.43.0


From 2b4cceb7474480feaf42abe8ec0ab6031e636981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:04 +0000
Subject: [PATCH 17/27] fix: predict zero xASTRO mint correctly when ASTRO was
 donated before the first stake

---
 contracts/pair_xastro/src/contract.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/contracts/pair_xastro/src/contract.rs b/contracts/pair_xastro/src/contract.rs
index 853c57f..7ae5522 100644
--- a/contracts/pair_xastro/src/contract.rs
+++ b/contracts/pair_xastro/src/contract.rs
@@ -190,7 +190,7 @@ pub fn predict_stake(
 ) -> Result<Uint128, ContractError> {
     let (total_deposit, total_shares) = query_deposit_and_shares(querier, config)?;
 
-    if total_deposit.is_zero() {
+    if total_shares.is_zero() || total_deposit.is_zero() {
         if amount.saturating_sub(MINIMUM_STAKE_AMOUNT).is_zero() {
             return Err(ContractError::MinimumStakeAmountError {});
         }
-- 
2.43.0


From 0460bcd4e4d03529b1a368aeeda9aef84ee4f548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:04 +0000
Subject: [PATCH 18/27] fix: refuse duplicate addresses in xASTRO initial
 balances

---
 contracts/tokenomics/xastro_token/src/contract.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/contracts/tokenomics/xastro_token/src/contract.rs b/contracts/tokenomics/xastro_token/src/contract.rs
index c49495e..09db842 100644
--- a/contracts/tokenomics/xastro_token/src/contract.rs
+++ b/contracts/tokenomics/xastro_token/src/contract.rs
@@ -1,3 +1,5 @@
+use std::collections::HashSet;
+
 use cosmwasm_std::{
     attr, entry_point, to_json_binary, Binary, Deps, DepsMut, Env, MessageInfo, Order, Response,
     StdError, StdResult, Uint128,
@@ -173,6 +175,13 @@ pub fn instantiate(
 ///
 /// * **accounts** array with accounts for which to mint tokens.
 pub fn create_accounts(deps: &mut DepsMut, env: &Env, accounts: &[Cw20Coin]) -> StdResult<Uint128> {
+    let unique_addresses: HashSet<_> = accounts.iter().map(|row| &row.address).collect();
+    if unique_addresses.len() != accounts.len() {
+        return Err(StdError::generic_err(
+            "Duplicate initial balance addresses",
+        ));
+    }
+
     let mut total_supply = Uint128::zero();
 
     for row in accounts {
-- 
2.43.0


From 6aa2a0026ac8ebe2c03129fd623cd4874911cee8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:04 +0000
Subject: [PATCH 19/27] fix: enforce the vesting schedules limit on the
 combined list

---
 contracts/tokenomics/vesting/src/contract.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/contracts/tokenomics/vesting/src/contract.rs b/contracts/tokenomics/vesting/src/contract.rs
index 544668f..a6511c1 100644
--- a/contracts/tokenomics/vesting/src/contract.rs
+++ b/contracts/tokenomics/vesting/src/contract.rs
@@ -181,15 +181,16 @@ pub fn register_vesting_accounts(
         }
 
         if let Some(mut old_info) = VESTING_INFO.may_load(deps.storage, &account_address)? {
-            if old_info.schedules.len() + 1 > SCHEDULES_LIMIT {
-                return Err(ContractError::ExceedSchedulesMaximumLimit(
-                    vesting_account.address,
-                ));
-            };
             released_amount = old_info.released_amount;
             vesting_account.schedules.append(&mut old_info.schedules);
         }
 
+        if vesting_account.schedules.len() > SCHEDULES_LIMIT {
+            return Err(ContractError::ExceedSchedulesMaximumLimit(
+                vesting_account.address,
+            ));
+        }
+
         VESTING_INFO.save(
             deps.storage,
             &account_address,
-- 
2.43.0


From d845cecfd6e816f31aa61023d9b6ff2d025cd384 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:04 +0000
Subject: [PATCH 20/27] fix: send only newly bought dev fund tokens in the
 maker reply

---
 contracts/tokenomics/maker/src/contract.rs | 10 +++++++++-
 contracts/tokenomics/maker/src/reply.rs    |  7 +++++--
 contracts/tokenomics/maker/src/state.rs    |  4 ++++
 3 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/contracts/tokenomics/maker/src/contract.rs b/contracts/tokenomics/maker/src/contract.rs
index 283fe45..9fd7b14 100644
--- a/contracts/tokenomics/maker/src/contract.rs
+++ b/contracts/tokenomics/maker/src/contract.rs
@@ -22,7 +22,9 @@ use astroport::pair::MAX_ALLOWED_SLIPPAGE;
 use crate::error::ContractError;
 use crate::migration::migrate_from_v120_plus;
 use crate::reply::PROCESS_DEV_FUND_REPLY_ID;
-use crate::state::{BRIDGES, CONFIG, LAST_COLLECT_TS, OWNERSHIP_PROPOSAL, SEIZE_CONFIG};
+use crate::state::{
+    BRIDGES, CONFIG, DEV_FUND_PREV_BALANCE, LAST_COLLECT_TS, OWNERSHIP_PROPOSAL, SEIZE_CONFIG,
+};
 use crate::utils::{
     build_distribute_msg, build_send_msg, build_swap_msg, get_pool, try_build_swap_msg,
     update_second_receiver_cfg, validate_bridge, validate_cooldown, BRIDGES_EXECUTION_MAX_DEPTH,
@@ -649,6 +651,12 @@ fn distribute(
         let dev_share = amount * dev_fund_conf.share;
 
         if !dev_share.is_zero() {
+            // Maker may hold uncollected fees in the same asset which don't belong to the dev fund
+            let prev_balance = dev_fund_conf
+                .asset_info
+                .query_pool(&deps.querier, &env.contract.address)?;
+            DEV_FUND_PREV_BALANCE.save(deps.storage, &prev_balance)?;
+
             // Swap ASTRO and process result in reply
             let pool = get_pool(
                 &deps.querier,
diff --git a/contracts/tokenomics/maker/src/reply.rs b/contracts/tokenomics/maker/src/reply.rs
index 0391765..7df52cc 100644
--- a/contracts/tokenomics/maker/src/reply.rs
+++ b/contracts/tokenomics/maker/src/reply.rs
@@ -1,4 +1,4 @@
-use crate::state::CONFIG;
+use crate::state::{CONFIG, DEV_FUND_PREV_BALANCE};
 use astroport::asset::AssetInfoExt;
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
@@ -15,7 +15,10 @@ pub fn reply(deps: DepsMut, env: Env, msg: Reply) -> StdResult<Response> {
 
             let amount = dev_fund_conf
                 .asset_info
-                .query_pool(&deps.querier, env.contract.address)?;
+                .query_pool(&deps.querier, env.contract.address)?
+                .checked_sub(DEV_FUND_PREV_BALANCE.load(deps.storage)?)?;
+            DEV_FUND_PREV_BALANCE.remove(deps.storage);
+
             let dev_fee = dev_fund_conf.asset_info.with_balance(amount);
 
             Ok(Response::new()
diff --git a/contracts/tokenomics/maker/src/state.rs b/contracts/tokenomics/maker/src/state.rs
index 75eec72..c9dc689 100644
--- a/contracts/tokenomics/maker/src/state.rs
+++ b/contracts/tokenomics/maker/src/state.rs
@@ -1,6 +1,7 @@
 use astroport::asset::AssetInfo;
 use astroport::common::OwnershipProposal;
 use astroport::maker::{Config, SeizeConfig};
+use cosmwasm_std::Uint128;
 use cw_storage_plus::{Item, Map};
 
 /// Stores the contract configuration at the given key
@@ -15,3 +16,6 @@ pub const BRIDGES: Map<String, AssetInfo> = Map::new("bridges");
 pub const LAST_COLLECT_TS: Item<u64> = Item::new("last_collect_ts");
 /// Stores seize config
 pub const SEIZE_CONFIG: Item<SeizeConfig> = Item::new("seize_config");
+/// Stores dev fund asset balance before ASTRO is swapped to this asset.
+/// Only what is received in this swap belongs to the dev fund.
+pub const DEV_FUND_PREV_BALANCE: Item<Uint128> = Item::new("dev_fund_prev_balance");
-- 
2.43.0


From 1df702325a4da98f2241d03d44649d8c9aa69f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:04 +0000
Subject: [PATCH 21/27] fix: allow revoking a fee grant whose allowance was
 used up

---
 .../periphery/fee_granter/src/contract.rs     | 30 +++++++++++++++----
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/contracts/periphery/fee_granter/src/contract.rs b/contracts/periphery/fee_granter/src/contract.rs
index 9cb9422..02c651c 100644
--- a/contracts/periphery/fee_granter/src/contract.rs
+++ b/contracts/periphery/fee_granter/src/contract.rs
@@ -8,8 +8,8 @@ use cosmos_sdk_proto::Any;
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
 use cosmwasm_std::{
-    attr, coins, Addr, BankMsg, CosmosMsg, DepsMut, Env, MessageInfo, Response, StdError,
-    StdResult, Uint128,
+    attr, coins, Addr, BankMsg, CosmosMsg, DepsMut, Env, MessageInfo, Reply, Response, StdError,
+    StdResult, SubMsg, SubMsgResult, Uint128,
 };
 use cw2::set_contract_version;
 use cw_utils::must_pay;
@@ -24,6 +24,9 @@ use crate::state::{update_admins_with_validation, CONFIG, GRANTS, OWNERSHIP_PROP
 pub(crate) const CONTRACT_NAME: &str = env!("CARGO_PKG_NAME");
 pub(crate) const CONTRACT_VERSION: &str = env!("CARGO_PKG_VERSION");
 
+/// Reply id of the revoke message
+const REVOKE_REPLY_ID: u64 = 1;
+
 #[cfg_attr(not(feature = "library"), entry_point)]
 pub fn instantiate(
     deps: DepsMut,
@@ -202,10 +205,25 @@ fn revoke(
         value: revoke_msg.encode_to_vec().into(),
     };
 
-    Ok(Response::default().add_message(msg).add_attributes([
-        ("action", "revoke"),
-        ("grantee_contract", grantee_contract.as_str()),
-    ]))
+    // The chain deletes an allowance once it is used up, thus there might be nothing left to revoke.
+    // The grant must be removed from the contract state anyway. Otherwise it can never be created again.
+    Ok(Response::default()
+        .add_submessage(SubMsg::reply_on_error(msg, REVOKE_REPLY_ID))
+        .add_attributes([
+            ("action", "revoke"),
+            ("grantee_contract", grantee_contract.as_str()),
+        ]))
+}
+
+/// The entry point to the contract for processing replies from submessages.
+#[cfg_attr(not(feature = "library"), entry_point)]
+pub fn reply(_deps: DepsMut, _env: Env, msg: Reply) -> Result<Response, ContractError> {
+    match (msg.id, msg.result) {
+        (REVOKE_REPLY_ID, SubMsgResult::Err(err)) => {
+            Ok(Response::default().add_attribute("revoke_allowance_error", err))
+        }
+        _ => Err(StdError::generic_err("Unknown reply").into()),
+    }
 }
 
 fn transfer_coins(
-- 
2.43.0


From cc4afb633510ab051cedb6e6914170e57498fc08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:41 +0000
Subject: [PATCH 22/27] fix: check every demanded minimum against its own asset
 on withdrawal

---
 contracts/pair/src/contract.rs        | 33 ++++++++++++---------------
 contracts/pair_stable/src/contract.rs | 33 ++++++++++++---------------
 2 files changed, 28 insertions(+), 38 deletions(-)

diff --git a/contracts/pair/src/contract.rs b/contracts/pair/src/contract.rs
index 6c07b57..975e7d9 100644
--- a/contracts/pair/src/contract.rs
+++ b/contracts/pair/src/contract.rs
@@ -1437,7 +1437,7 @@ pub fn pool_info(querier: QuerierWrapper, config: &Config) -> StdResult<(Vec<Ass
 
 fn ensure_min_assets_to_receive(
     config: &Config,
-    mut refund_assets: Vec<Asset>,
+    refund_assets: Vec<Asset>,
     min_assets_to_receive: Option<Vec<Asset>>,
 ) -> Result<(), ContractError> {
     if let Some(min_assets_to_receive) = min_assets_to_receive {
@@ -1454,24 +1454,19 @@ fn ensure_min_assets_to_receive(
             }
         }
 
-        if refund_assets[0].info.ne(&min_assets_to_receive[0].info) {
-            refund_assets.swap(0, 1)
-        }
-
-        if refund_assets[0].amount < min_assets_to_receive[0].amount {
-            return Err(ContractError::WithdrawSlippageViolation {
-                asset_name: refund_assets[0].info.to_string(),
-                received: refund_assets[0].amount,
-                expected: min_assets_to_receive[0].amount,
-            });
-        }
-
-        if refund_assets[1].amount < min_assets_to_receive[1].amount {
-            return Err(ContractError::WithdrawSlippageViolation {
-                asset_name: refund_assets[1].info.to_string(),
-                received: refund_assets[1].amount,
-                expected: min_assets_to_receive[1].amount,
-            });
+        for min_asset in &min_assets_to_receive {
+            let refund_asset = refund_assets
+                .iter()
+                .find(|asset| asset.info == min_asset.info)
+                .ok_or(ContractError::AssetMismatch {})?;
+
+            if refund_asset.amount < min_asset.amount {
+                return Err(ContractError::WithdrawSlippageViolation {
+                    asset_name: refund_asset.info.to_string(),
+                    received: refund_asset.amount,
+                    expected: min_asset.amount,
+                });
+            }
         }
     }
 
diff --git a/contracts/pair_stable/src/contract.rs b/contracts/pair_stable/src/contract.rs
index fd2c1f2..bffcc62 100644
--- a/contracts/pair_stable/src/contract.rs
+++ b/contracts/pair_stable/src/contract.rs
@@ -1210,7 +1210,7 @@ fn query_compute_d(deps: Deps, env: Env) -> StdResult<Uint128> {
 
 fn ensure_min_assets_to_receive(
     config: &Config,
-    mut refund_assets: Vec<Asset>,
+    refund_assets: Vec<Asset>,
     min_assets_to_receive: Option<Vec<Asset>>,
 ) -> Result<(), ContractError> {
     if let Some(min_assets_to_receive) = min_assets_to_receive {
@@ -1227,24 +1227,19 @@ fn ensure_min_assets_to_receive(
             }
         }
 
-        if refund_assets[0].info.ne(&min_assets_to_receive[0].info) {
-            refund_assets.swap(0, 1)
-        }
-
-        if refund_assets[0].amount < min_assets_to_receive[0].amount {
-            return Err(ContractError::WithdrawSlippageViolation {
-                asset_name: refund_assets[0].info.to_string(),
-                received: refund_assets[0].amount,
-                expected: min_assets_to_receive[0].amount,
-            });
-        }
-
-        if refund_assets[1].amount < min_assets_to_receive[1].amount {
-            return Err(ContractError::WithdrawSlippageViolation {
-                asset_name: refund_assets[1].info.to_string(),
-                received: refund_assets[1].amount,
-                expected: min_assets_to_receive[1].amount,
-            });
+        for min_asset in &min_assets_to_receive {
+            let refund_asset = refund_assets
+                .iter()
+                .find(|asset| asset.info == min_asset.info)
+                .ok_or(ContractError::AssetMismatch {})?;
+
+            if refund_asset.amount < min_asset.amount {
+                return Err(ContractError::WithdrawSlippageViolation {
+                    asset_name: refund_asset.info.to_string(),
+                    received: refund_asset.amount,
+                    expected: min_asset.amount,
+                });
+            }
         }
     }
 
-- 
2.43.0


From 59828739978c2e173aac8df16e22b71954d35929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:41 +0000
Subject: [PATCH 23/27] fix: never move the price scale below the initial LP
 value

---
 packages/astroport_pcl_common/src/state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index 7fc485a..6151dd1 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -381,7 +381,10 @@ impl PoolState {
             let new_xcp = get_xcp(new_d, price_scale_new);
             let new_xcp_profit_real = new_xcp / total_lp;
 
-            if TWO * new_xcp_profit_real > xcp_profit + Decimal256::one() {
+            // The profit can be below one after a ramp, thus the value of LP tokens is checked on its own
+            if new_xcp_profit_real > Decimal256::one()
+                && TWO * new_xcp_profit_real > xcp_profit + Decimal256::one()
+            {
                 price_state.price_scale = price_scale_new;
                 price_state.xcp_profit_real = new_xcp_profit_real;
             };
-- 
2.43.0


From 4d3bc428483dfadacbbb6fdb433da84b3573569d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:41 +0000
Subject: [PATCH 24/27] fix: don't mistake the effect of a finished ramp for a
 loss

---
 packages/astroport_pcl_common/src/state.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/packages/astroport_pcl_common/src/state.rs b/packages/astroport_pcl_common/src/state.rs
index 6151dd1..38786ef 100644
--- a/packages/astroport_pcl_common/src/state.rs
+++ b/packages/astroport_pcl_common/src/state.rs
@@ -323,6 +323,9 @@ impl PoolState {
         let block_time = env.block.time.seconds();
         let price_state = &mut self.price_state;
 
+        // Whether Amp and Gamma could have been changing since the last price update
+        let ramping = price_state.last_price_update < self.future_time;
+
         if price_state.last_price_update < block_time {
             let arg = Decimal256::from_ratio(
                 block_time - price_state.last_price_update,
@@ -342,7 +345,7 @@ impl PoolState {
             let xcp_profit_real = xcp / total_lp;
 
             // If xcp dropped and no ramping happens then this swap makes loss
-            if xcp_profit_real < price_state.xcp_profit_real && block_time >= self.future_time {
+            if xcp_profit_real < price_state.xcp_profit_real && !ramping {
                 return Err(StdError::generic_err(
                     "XCP profit real value dropped. This action makes loss",
                 ));
-- 
2.43.0


From 62669787074596545e7b35b61292778c430c27d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:02 +0000
Subject: [PATCH 25/27] fix: update ASTRO token of all pools, not only active
 ones

---
 .../tokenomics/incentives/src/execute.rs      | 27 ++++++++++---------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/contracts/tokenomics/incentives/src/execute.rs b/contracts/tokenomics/incentives/src/execute.rs
index 5356149..fe98703 100644
--- a/contracts/tokenomics/incentives/src/execute.rs
+++ b/contracts/tokenomics/incentives/src/execute.rs
@@ -3,7 +3,7 @@ use std::collections::HashSet;
 #[cfg(not(feature = "library"))]
 use cosmwasm_std::entry_point;
 use cosmwasm_std::{
-    attr, ensure, from_json, Addr, DepsMut, Env, MessageInfo, Response, StdError, StdResult,
+    attr, ensure, from_json, Addr, DepsMut, Env, MessageInfo, Order, Response, StdError, StdResult,
     Uint128,
 };
 use cw_utils::one_coin;
@@ -21,7 +21,7 @@ use astroport::incentives::{
 
 use crate::error::ContractError;
 use crate::state::{
-    Op, PoolInfo, UserInfo, ACTIVE_POOLS, BLOCKED_TOKENS, CONFIG, OWNERSHIP_PROPOSAL,
+    Op, PoolInfo, UserInfo, ACTIVE_POOLS, BLOCKED_TOKENS, CONFIG, OWNERSHIP_PROPOSAL, POOLS,
 };
 use crate::utils::{
     asset_info_key, claim_orphaned_rewards, claim_rewards, deactivate_blocked_pools,
@@ -403,20 +403,23 @@ fn update_config(
         attrs.push(attr("new_astro_token", astro_token.to_string()));
         config.astro_token = astro_token;
 
-        // Loop through all active pools and update astro asset info
-        for (lp_token, _) in ACTIVE_POOLS.load(deps.storage)? {
+        // Loop through all pools and update astro asset info. Inactive pools keep their protocol
+        // reward too, as stakers might still have outstanding rewards there.
+        let lp_tokens = POOLS
+            .keys_raw(deps.storage, None, None, Order::Ascending)
+            .collect_vec();
+        for lp_token in lp_tokens {
+            let lp_token = String::from_utf8(lp_token).map_err(StdError::invalid_utf8)?;
+            let lp_token = determine_asset_info(&lp_token, deps.api)?;
             let mut pool_info = PoolInfo::load(deps.storage, &lp_token)?;
-            let protocol_reward = pool_info
+            if let Some(protocol_reward) = pool_info
                 .rewards
                 .iter_mut()
                 .find(|r| !r.reward.is_external())
-                .ok_or_else(|| {
-                    StdError::generic_err(format!(
-                        "Protocol ASTRO reward not found in active pool {lp_token}",
-                    ))
-                })?;
-            protocol_reward.reward = RewardType::Int(config.astro_token.clone());
-            pool_info.save(deps.storage, &lp_token)?;
+            {
+                protocol_reward.reward = RewardType::Int(config.astro_token.clone());
+                pool_info.save(deps.storage, &lp_token)?;
+            }
         }
     }
 
-- 
2.43.0


From bff42f4422a94eeab241847d66929f64c25c83e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:27 +0000
Subject: [PATCH 26/27] fix: refuse attached coins that the deposit does not
 announce

---
 packages/astroport/src/asset.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/packages/astroport/src/asset.rs b/packages/astroport/src/asset.rs
index 907050c..6ecc093 100644
--- a/packages/astroport/src/asset.rs
+++ b/packages/astroport/src/asset.rs
@@ -338,9 +338,10 @@ impl CoinsExt for Vec<Coin> {
         })?;
 
         self.iter().try_for_each(|coin| {
-            if pool_asset_infos.contains(&AssetInfo::NativeToken {
+            let coin_info = AssetInfo::NativeToken {
                 denom: coin.denom.clone(),
-            }) {
+            };
+            if input_assets.iter().any(|input| input.info == coin_info) {
                 Ok(())
             } else {
                 Err(StdError::generic_err(format!(
-- 
2.43.0


From 5f948749bad01d8cedefb5a09338c9c8d39f28ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:27 +0000
Subject: [PATCH 27/27] fix: routes started while another route is under way no
 longer replace its minimum

---
 contracts/router/src/contract.rs | 24 ++++++++++++++----------
 contracts/router/src/state.rs    |  4 +++-
 2 files changed, 17 insertions(+), 11 deletions(-)

diff --git a/contracts/router/src/contract.rs b/contracts/router/src/contract.rs
index 16ca889..aeedc1e 100644
--- a/contracts/router/src/contract.rs
+++ b/contracts/router/src/contract.rs
@@ -181,15 +181,14 @@ pub fn execute_swap_operations(
         .collect::<StdResult<Vec<_>>>()?;
 
     let prev_balance = target_asset_info.query_pool(&deps.querier, &to)?;
-    REPLY_DATA.save(
-        deps.storage,
-        &ReplyData {
-            asset_info: target_asset_info,
-            prev_balance,
-            minimum_receive,
-            receiver: to.to_string(),
-        },
-    )?;
+    let mut routes = REPLY_DATA.may_load(deps.storage)?.unwrap_or_default();
+    routes.push(ReplyData {
+        asset_info: target_asset_info,
+        prev_balance,
+        minimum_receive,
+        receiver: to.to_string(),
+    });
+    REPLY_DATA.save(deps.storage, &routes)?;
 
     Ok(Response::new().add_submessages(messages))
 }
@@ -201,7 +200,12 @@ pub fn reply(deps: DepsMut, _env: Env, msg: Reply) -> Result<Response, ContractE
             id: AFTER_SWAP_REPLY_ID,
             result: SubMsgResult::Ok(..),
         } => {
-            let reply_data = REPLY_DATA.load(deps.storage)?;
+            let mut routes = REPLY_DATA.load(deps.storage)?;
+            let reply_data = routes
+                .pop()
+                .ok_or_else(|| StdError::generic_err("Failed to process reply"))?;
+            REPLY_DATA.save(deps.storage, &routes)?;
+
             let receiver_balance = reply_data
                 .asset_info
                 .query_pool(&deps.querier, reply_data.receiver)?;
diff --git a/contracts/router/src/state.rs b/contracts/router/src/state.rs
index ea34fef..018dde9 100644
--- a/contracts/router/src/state.rs
+++ b/contracts/router/src/state.rs
@@ -13,7 +13,9 @@ pub struct Config {
     pub astroport_factory: Addr,
 }
 
-pub const REPLY_DATA: Item<ReplyData> = Item::new("reply_data");
+/// Stores the routes that are being executed. A token on a route may start another route
+/// before the first one ends, the last started route ends first.
+pub const REPLY_DATA: Item<Vec<ReplyData>> = Item::new("reply_data_stack");
 
 #[cw_serde]
 pub struct ReplyData {
-- 
2.43.0

