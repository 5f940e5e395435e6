From ae4de11f00771eee60ddcf58da1da2c1999d000c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:49 +0000
Subject: [PATCH 01/10] fix: warp routes reject transfers whose recipient is
 not 32 bytes

---
 contracts/warp/cw20/src/contract.rs   | 2 ++
 contracts/warp/native/src/contract.rs | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/contracts/warp/cw20/src/contract.rs b/contracts/warp/cw20/src/contract.rs
index 503b2a2..0c6e009 100644
--- a/contracts/warp/cw20/src/contract.rs
+++ b/contracts/warp/cw20/src/contract.rs
@@ -196,6 +196,8 @@ fn transfer_remote(
     let mode = MODE.load(deps.storage)?;
     let mailbox = MAILBOX.load(deps.storage)?;
 
+    ensure_eq!(recipient.len(), 32, ContractError::WrongLength {});
+
     let dest_router = get_route::<HexBinary>(deps.storage, dest_domain)?
         .route
         .expect("route not found");
diff --git a/contracts/warp/native/src/contract.rs b/contracts/warp/native/src/contract.rs
index ef6c234..b553a06 100644
--- a/contracts/warp/native/src/contract.rs
+++ b/contracts/warp/native/src/contract.rs
@@ -209,6 +209,8 @@ fn transfer_remote(
     let mode = MODE.load(deps.storage)?;
     let mailbox = MAILBOX.load(deps.storage)?;
 
+    ensure_eq!(recipient.len(), 32, ContractError::WrongLength);
+
     let mut funds = info.funds.clone();
 
     let (token_index, token_received) = funds
-- 
2.43.0


From 2682420437ec6015ecb3794c1ea94ef197c21bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:49 +0000
Subject: [PATCH 02/10] fix: routing hooks forward the payment to the routed
 hook

---
 contracts/hooks/routing-custom/src/lib.rs   | 4 ++--
 contracts/hooks/routing-fallback/src/lib.rs | 4 ++--
 contracts/hooks/routing/src/lib.rs          | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/contracts/hooks/routing-custom/src/lib.rs b/contracts/hooks/routing-custom/src/lib.rs
index 1a355a7..32aecd4 100644
--- a/contracts/hooks/routing-custom/src/lib.rs
+++ b/contracts/hooks/routing-custom/src/lib.rs
@@ -284,12 +284,12 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
 
 fn post_dispatch(
     deps: DepsMut,
-    _info: MessageInfo,
+    info: MessageInfo,
     req: PostDispatchMsg,
 ) -> Result<Response, ContractError> {
     let (decoded_msg, routed_hook) = route(deps.storage, &req.message)?;
 
-    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), vec![])?;
+    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), info.funds)?;
 
     Ok(Response::new().add_message(hook_msg).add_event(
         new_event("post_dispatch")
diff --git a/contracts/hooks/routing-fallback/src/lib.rs b/contracts/hooks/routing-fallback/src/lib.rs
index 97ef08f..9e2cc2c 100644
--- a/contracts/hooks/routing-fallback/src/lib.rs
+++ b/contracts/hooks/routing-fallback/src/lib.rs
@@ -126,12 +126,12 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
 
 pub fn post_dispatch(
     deps: DepsMut,
-    _info: MessageInfo,
+    info: MessageInfo,
     req: PostDispatchMsg,
 ) -> Result<Response, ContractError> {
     let (decoded_msg, routed_hook) = route(deps.storage, &req.message)?;
 
-    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), vec![])?;
+    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), info.funds)?;
 
     Ok(Response::new().add_message(hook_msg).add_event(
         new_event("post_dispatch")
diff --git a/contracts/hooks/routing/src/lib.rs b/contracts/hooks/routing/src/lib.rs
index 341c90c..b485cc9 100644
--- a/contracts/hooks/routing/src/lib.rs
+++ b/contracts/hooks/routing/src/lib.rs
@@ -123,12 +123,12 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
 
 fn post_dispatch(
     deps: DepsMut,
-    _info: MessageInfo,
+    info: MessageInfo,
     req: PostDispatchMsg,
 ) -> Result<Response, ContractError> {
     let (decoded_msg, routed_hook) = route(deps.storage, &req.message)?;
 
-    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), vec![])?;
+    let hook_msg = wasm_execute(&routed_hook, &req.wrap(), info.funds)?;
 
     Ok(Response::new().add_message(hook_msg).add_event(
         new_event("post_dispatch")
-- 
2.43.0


From 71d4260ed2b0769d1a4c2998c03b96ebc1d2e1b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:09 +0000
Subject: [PATCH 03/10] fix: routing ISM answers verify_info of the routed
 module

---
 contracts/isms/routing/src/contract.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/contracts/isms/routing/src/contract.rs b/contracts/isms/routing/src/contract.rs
index bba8f9a..e0b4d41 100644
--- a/contracts/isms/routing/src/contract.rs
+++ b/contracts/isms/routing/src/contract.rs
@@ -7,7 +7,7 @@ use cw2::set_contract_version;
 use hpl_interface::{
     ism::{
         routing::{ExecuteMsg, InstantiateMsg, QueryMsg, RouteResponse, RoutingIsmQueryMsg},
-        IsmQueryMsg, ModuleTypeResponse, VerifyResponse,
+        IsmQueryMsg, ModuleTypeResponse, VerifyInfoResponse, VerifyResponse,
     },
     types::Message,
 };
@@ -129,11 +129,11 @@ pub fn query(deps: Deps, env: Env, msg: QueryMsg) -> Result<QueryResponse, Contr
                     .may_load(deps.storage, decoded.origin_domain)?
                     .ok_or(ContractError::RouteNotFound {})?;
 
-                let verify_resp: VerifyResponse = deps
+                let verify_info_resp: VerifyInfoResponse = deps
                     .querier
-                    .query_wasm_smart(ism, &IsmQueryMsg::VerifyInfo { message })?;
+                    .query_wasm_smart(ism, &IsmQueryMsg::VerifyInfo { message }.wrap())?;
 
-                Ok(to_json_binary(&verify_resp)?)
+                Ok(to_json_binary(&verify_info_resp)?)
             }
         },
         QueryMsg::RoutingIsm(msg) => match msg {
-- 
2.43.0


From 15c0bb595d3bc9e01f75454c8a63cf7ae655c66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:09 +0000
Subject: [PATCH 04/10] fix: aggregate ISM checks its threshold on
 instantiation

---
 contracts/isms/aggregate/src/lib.rs | 26 ++++++++++++++++----------
 1 file changed, 16 insertions(+), 10 deletions(-)

diff --git a/contracts/isms/aggregate/src/lib.rs b/contracts/isms/aggregate/src/lib.rs
index 0d39848..a02f109 100644
--- a/contracts/isms/aggregate/src/lib.rs
+++ b/contracts/isms/aggregate/src/lib.rs
@@ -33,6 +33,19 @@ fn new_event(name: &str) -> Event {
     Event::new(format!("hpl_ism_aggregate::{}", name))
 }
 
+fn ensure_threshold(ism_count: usize, threshold: u8) -> Result<(), ContractError> {
+    ensure!(
+        threshold > 0,
+        ContractError::InvalidThreshold("threshold must not be zero".to_string())
+    );
+    ensure!(
+        ism_count >= threshold as usize,
+        ContractError::InvalidThreshold("threshold should be less than ism count".to_string())
+    );
+
+    Ok(())
+}
+
 #[cfg_attr(not(feature = "library"), entry_point)]
 pub fn instantiate(
     deps: DepsMut,
@@ -42,6 +55,8 @@ pub fn instantiate(
 ) -> Result<Response, ContractError> {
     set_contract_version(deps.storage, CONTRACT_NAME, CONTRACT_VERSION)?;
 
+    ensure_threshold(msg.isms.len(), msg.threshold)?;
+
     let owner = deps.api.addr_validate(&msg.owner)?;
     let isms = msg
         .isms
@@ -78,16 +93,7 @@ pub fn execute(
                 info.sender,
                 ContractError::Unauthorized
             );
-            ensure!(
-                threshold > 0,
-                ContractError::InvalidThreshold("threshold must not be zero".to_string())
-            );
-            ensure!(
-                isms.len() >= threshold as usize,
-                ContractError::InvalidThreshold(
-                    "threshold should be less than ism count".to_string()
-                )
-            );
+            ensure_threshold(isms.len(), threshold)?;
 
             let parsed_isms = isms
                 .iter()
-- 
2.43.0


From cab2693046ee99da91499b61a86df002283603b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:09 +0000
Subject: [PATCH 05/10] fix: IGP accepts an unpaid dispatch when the quoted gas
 payment is zero

---
 contracts/igps/core/src/execute.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/contracts/igps/core/src/execute.rs b/contracts/igps/core/src/execute.rs
index 1578ab7..10c192d 100644
--- a/contracts/igps/core/src/execute.rs
+++ b/contracts/igps/core/src/execute.rs
@@ -149,8 +149,12 @@ pub fn pay_for_gas(
     refund_address: String,
 ) -> Result<Response, ContractError> {
     let gas_token = GAS_TOKEN.load(deps.storage)?;
-    let received = Uint256::from(cw_utils::must_pay(&info, &gas_token)?);
     let gas_needed = quote_gas_price(deps.storage, &deps.querier, dest_domain, gas_amount)?;
+    // nothing to pay is quoted as no fee at all, so nothing needs to be sent either
+    let received = match gas_needed.is_zero() && info.funds.is_empty() {
+        true => Uint256::zero(),
+        false => Uint256::from(cw_utils::must_pay(&info, &gas_token)?),
+    };
     ensure!(
         received >= gas_needed,
         ContractError::InsufficientFunds {
-- 
2.43.0


From 3db17efa1f4c60340c9c13b80462527f83c45521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:25 +0000
Subject: [PATCH 06/10] fix: fee hook with a zero fee quotes nothing and needs
 no payment

---
 contracts/hooks/fee/src/lib.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/contracts/hooks/fee/src/lib.rs b/contracts/hooks/fee/src/lib.rs
index be2de06..db8631f 100644
--- a/contracts/hooks/fee/src/lib.rs
+++ b/contracts/hooks/fee/src/lib.rs
@@ -2,7 +2,7 @@
 use cosmwasm_std::entry_point;
 use cosmwasm_std::{
     ensure, ensure_eq, BankMsg, Coin, CosmosMsg, Deps, DepsMut, Empty, Env, Event, MessageInfo,
-    QueryResponse, Response, StdError,
+    QueryResponse, Response, StdError, Uint128,
 };
 use cw_storage_plus::Item;
 use hpl_interface::{
@@ -113,7 +113,10 @@ pub fn execute(
         },
         ExecuteMsg::PostDispatch(_) => {
             let fee = COIN_FEE.load(deps.storage)?;
-            let supplied = cw_utils::must_pay(&info, &fee.denom)?;
+            let supplied = match fee.amount.is_zero() && info.funds.is_empty() {
+                true => Uint128::zero(),
+                false => cw_utils::must_pay(&info, &fee.denom)?,
+            };
 
             ensure!(
                 supplied.u128() >= fee.amount.u128(),
@@ -150,7 +153,12 @@ fn get_mailbox(_deps: Deps) -> Result<MailboxResponse, ContractError> {
 
 fn quote_dispatch(deps: Deps) -> Result<QuoteDispatchResponse, ContractError> {
     let fee = COIN_FEE.load(deps.storage)?;
-    Ok(QuoteDispatchResponse { fees: vec![fee] })
+    let fees = match fee.amount.is_zero() {
+        true => vec![],
+        false => vec![fee],
+    };
+
+    Ok(QuoteDispatchResponse { fees })
 }
 
 #[cfg_attr(not(feature = "library"), entry_point)]
-- 
2.43.0


From cc2ee57616020bd921d763cb832f772308bd6b2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:25 +0000
Subject: [PATCH 07/10] fix: IGP metadata accepts refund addresses that start
 with zero bytes

---
 packages/interface/src/types/metadata.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/packages/interface/src/types/metadata.rs b/packages/interface/src/types/metadata.rs
index 15b56ab..43043a6 100644
--- a/packages/interface/src/types/metadata.rs
+++ b/packages/interface/src/types/metadata.rs
@@ -250,18 +250,8 @@ impl IGPMetadata {
             return default;
         }
 
-        let raw_addr = match self
-            .refund_address
-            .to_vec()
-            .iter()
-            .take(16)
-            .all(|&byte| byte == 0)
-        {
-            true => self.refund_address.to_vec()[16..].to_vec(),
-            false => self.refund_address.to_vec(),
-        };
-
-        bech32_encode(hrp, &raw_addr).unwrap()
+        // left-padded 20 byte addresses are recognized by bech32_encode
+        bech32_encode(hrp, &self.refund_address).unwrap()
     }
 }
 
-- 
2.43.0


From 6698c67bd46bc11260f35dfb9d6a00b85a6bf3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:25 +0000
Subject: [PATCH 08/10] fix: gas oracle rejects a zero exchange rate for a
 single domain too

---
 contracts/igps/oracle/src/contract.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/igps/oracle/src/contract.rs b/contracts/igps/oracle/src/contract.rs
index 464a76f..da39bcb 100644
--- a/contracts/igps/oracle/src/contract.rs
+++ b/contracts/igps/oracle/src/contract.rs
@@ -73,6 +73,11 @@ pub fn execute(
                 ContractError::Unauthorized {}
             );
 
+            ensure!(
+                !config.token_exchange_rate.is_zero(),
+                ContractError::invalid_config("exchange rate must be non-zero")
+            );
+
             let domain = config.remote_domain.to_string();
             insert_gas_data(deps.storage, config)?;
 
-- 
2.43.0


From 15c98fb5ba4399947b0effe644eb0cc979ac01f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:25 +0000
Subject: [PATCH 09/10] fix: router lists its domains after a route was cleared

---
 packages/router/src/lib.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/packages/router/src/lib.rs b/packages/router/src/lib.rs
index b11de61..e553aa1 100644
--- a/packages/router/src/lib.rs
+++ b/packages/router/src/lib.rs
@@ -144,7 +144,8 @@ pub fn get_domains<T>(storage: &dyn Storage) -> StdResult<Vec<u32>>
 where
     T: Serialize + DeserializeOwned + Clone + Eq,
 {
-    get_route_map::<T>()
+    // cleared routes are stored as none
+    get_route_map::<Option<T>>()
         .keys(storage, None, None, Order::Asc.into())
         .collect()
 }
-- 
2.43.0


From cbd30fd40829cf9810fa1098b0c1ae02e3ed144f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:14 +0000
Subject: [PATCH 10/10] fix: routing fallback hook serves a routed domain
 without a fallback hook

---
 contracts/hooks/routing-fallback/src/lib.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/contracts/hooks/routing-fallback/src/lib.rs b/contracts/hooks/routing-fallback/src/lib.rs
index 9e2cc2c..992f4b8 100644
--- a/contracts/hooks/routing-fallback/src/lib.rs
+++ b/contracts/hooks/routing-fallback/src/lib.rs
@@ -116,10 +116,12 @@ fn route(storage: &dyn Storage, message: &HexBinary) -> Result<(Message, Addr),
     let decoded_msg: Message = message.clone().into();
     let dest_domain = decoded_msg.dest_domain;
 
-    let fallback_hook = FALLBACK_HOOK.load(storage)?;
-
     let routed_hook_set = hpl_router::get_route::<Addr>(storage, dest_domain)?;
-    let routed_hook = routed_hook_set.route.unwrap_or(fallback_hook);
+    // the fallback is only needed, and may only be missing, for domains without a route of their own
+    let routed_hook = match routed_hook_set.route {
+        Some(route) => route,
+        None => FALLBACK_HOOK.load(storage)?,
+    };
 
     Ok((decoded_msg, routed_hook))
 }
-- 
2.43.0

