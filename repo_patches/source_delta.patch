From 3e6ff60d0a379e3d693e7d06c65b8d70cf236d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 1/6] fix: round up divisions by price on the exact remainder

divide_by_price truncated the quotient to 18 decimals before taking the ceiling, so at prices
above 1e18 a small fill cost zero input and the swap was refused: a one unit bid near MAX_TICK
blocked every base to quote swap.
---
 contracts/sumtree-orderbook/src/tick_math.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/contracts/sumtree-orderbook/src/tick_math.rs b/contracts/sumtree-orderbook/src/tick_math.rs
index 06db154..69e9dde 100644
--- a/contracts/sumtree-orderbook/src/tick_math.rs
+++ b/contracts/sumtree-orderbook/src/tick_math.rs
@@ -121,7 +121,8 @@ pub fn divide_by_price(
     price: Decimal256,
     rounding_direction: RoundingDirection,
 ) -> ContractResult<Uint256> {
-    let amount_to_send_dec256 = Decimal256::from_ratio(amount, Uint256::one()).checked_div(price);
+    let amount_dec256 = Decimal256::from_ratio(amount, Uint256::one());
+    let amount_to_send_dec256 = amount_dec256.checked_div(price);
     ensure!(
         amount_to_send_dec256.is_ok(),
         ContractError::Overflow(OverflowError {
@@ -130,7 +131,15 @@ pub fn divide_by_price(
             operand2: price.to_string(),
         })
     );
-    let amount_to_send = rounding_direction.round(amount_to_send_dec256?);
+    let mut amount_to_send = amount_to_send_dec256?.to_uint_floor();
+
+    // The decimal quotient is truncated to 18 decimal places, so rounding up must be decided on the
+    // exact remainder. Otherwise, any quotient smaller than the decimal precision would round up to zero.
+    if matches!(rounding_direction, RoundingDirection::Up)
+        && !(amount_dec256.atomics() % price.atomics()).is_zero()
+    {
+        amount_to_send = amount_to_send.checked_add(Uint256::one())?;
+    }
 
     Ok(amount_to_send)
 }
-- 
2.43.0


From ac0039fcf18fd2d8bad7c66aa02252cad5bd89f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 2/6] fix: let governance administer a halted orderbook

sudo() applied the active switch to every message, so once halted, governance could neither
reopen the orderbook nor replace the admin that could.
---
 contracts/sumtree-orderbook/src/sudo.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/contracts/sumtree-orderbook/src/sudo.rs b/contracts/sumtree-orderbook/src/sudo.rs
index 30614e7..4c72b38 100644
--- a/contracts/sumtree-orderbook/src/sudo.rs
+++ b/contracts/sumtree-orderbook/src/sudo.rs
@@ -20,7 +20,13 @@ use crate::{
 #[cfg_attr(not(feature = "imported"), entry_point)]
 pub fn sudo(deps: DepsMut, env: Env, msg: SudoMsg) -> ContractResult<Response> {
     // Ensure orderbook is active
-    ensure_is_active(deps.as_ref())?;
+    // Switch does not apply to admin actions or to the switch itself
+    if !matches!(
+        msg,
+        SudoMsg::TransferAdmin { .. } | SudoMsg::RemoveAdmin {} | SudoMsg::SetActive { .. }
+    ) {
+        ensure_is_active(deps.as_ref())?;
+    }
 
     match msg {
         SudoMsg::SwapExactAmountIn {
-- 
2.43.0


From 996ce6ca7996ecd1ec43a304b518c09bd1de7da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:50 +0000
Subject: [PATCH 3/6] fix: drop the pending admin offer when the admin changes

A pending offer survived renouncement as well as removal or replacement by governance, so the
nominee of an admin that had already been removed could still take over.
---
 contracts/sumtree-orderbook/src/auth.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/contracts/sumtree-orderbook/src/auth.rs b/contracts/sumtree-orderbook/src/auth.rs
index b92d0ff..971c07e 100644
--- a/contracts/sumtree-orderbook/src/auth.rs
+++ b/contracts/sumtree-orderbook/src/auth.rs
@@ -126,7 +126,6 @@ pub(crate) fn dispatch_claim_admin(deps: DepsMut, info: MessageInfo) -> Contract
     );
 
     update_admin(deps.storage, deps.api, info.sender)?;
-    remove_admin_transfer(deps.storage)?;
 
     Ok(Response::default().add_attributes(vec![("method", "claim_admin")]))
 }
@@ -184,11 +183,15 @@ pub(crate) fn update_admin(
     // Ensure provided address is valid
     api.addr_validate(new_admin.as_str())?;
     ADMIN.save(storage, &new_admin)?;
+    // An offer made by the previous admin does not outlive their adminship
+    remove_admin_transfer(storage)?;
     Ok(())
 }
 
 pub(crate) fn remove_admin(storage: &mut dyn Storage) -> ContractResult<()> {
     ADMIN.remove(storage);
+    // An offer made by the removed admin does not outlive their adminship
+    remove_admin_transfer(storage)?;
     Ok(())
 }
 
-- 
2.43.0


From d2904c948335ad03b121e43d7a6402194c5b5517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 4/6] fix: quote the spot price of the best tick that has
 liquidity

The tick pointers are only moved by placements and swaps, so after a cancellation or an exact
fill of the best tick the spot price was that of an empty tick.
---
 contracts/sumtree-orderbook/src/query.rs | 38 +++++++++++++++++++++---
 1 file changed, 34 insertions(+), 4 deletions(-)

diff --git a/contracts/sumtree-orderbook/src/query.rs b/contracts/sumtree-orderbook/src/query.rs
index 6e951a4..49f2f32 100644
--- a/contracts/sumtree-orderbook/src/query.rs
+++ b/contracts/sumtree-orderbook/src/query.rs
@@ -51,13 +51,43 @@ pub(crate) fn spot_price(
     let direction = orderbook.direction_from_pair(base_asset_denom, quote_asset_denom)?;
 
     // Determine next tick based on desired order direction
-    let next_tick = match direction {
-        OrderDirection::Ask => orderbook.next_bid_tick,
-        OrderDirection::Bid => orderbook.next_ask_tick,
+    let (next_tick, min_tick, max_tick, ordering) = match direction {
+        OrderDirection::Ask => (
+            orderbook.next_bid_tick,
+            MIN_TICK,
+            orderbook.next_bid_tick,
+            Order::Descending,
+        ),
+        OrderDirection::Bid => (
+            orderbook.next_ask_tick,
+            orderbook.next_ask_tick,
+            MAX_TICK,
+            Order::Ascending,
+        ),
     };
 
+    // The tick pointer may rest on a tick that was emptied by a fill or a cancellation, skip to the
+    // first tick that still has liquidity. If there is none the pointer is left where it is.
+    let mut best_tick = next_tick;
+    for maybe_tick in TICK_STATE.range(
+        deps.storage,
+        Some(Bound::inclusive(min_tick)),
+        Some(Bound::inclusive(max_tick)),
+        ordering,
+    ) {
+        let (tick_id, tick_state) = maybe_tick?;
+        if !tick_state
+            .get_values(direction.opposite())
+            .total_amount_of_liquidity
+            .is_zero()
+        {
+            best_tick = tick_id;
+            break;
+        }
+    }
+
     // Generate spot price based on current active tick for desired order direction
-    let price = tick_to_price(next_tick)?;
+    let price = tick_to_price(best_tick)?;
 
     let spot_price = match direction {
         OrderDirection::Ask => price,
-- 
2.43.0


From d5b9095a919d5a6b63cd5749454ff3ca3127393c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:09 +0000
Subject: [PATCH 5/6] fix: keep the order when its claim fails within a batch

claim_order removed or reduced the order before the steps that can still fail. Batch claims
ignore errors, so an order whose payout could not be built was gone without being paid.
---
 contracts/sumtree-orderbook/src/order.rs | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/contracts/sumtree-orderbook/src/order.rs b/contracts/sumtree-orderbook/src/order.rs
index c97ec62..b0129a0 100644
--- a/contracts/sumtree-orderbook/src/order.rs
+++ b/contracts/sumtree-orderbook/src/order.rs
@@ -673,14 +673,6 @@ pub(crate) fn claim_order(
     order.quantity = order.quantity.checked_sub(amount_filled)?;
     order.etas = order.etas.checked_add(amount_filled_dec)?;
 
-    // If order fully filled then remove
-    if order.quantity.is_zero() {
-        orders().remove(storage, &key)?;
-    // Else update in state
-    } else {
-        orders().save(storage, &key, &order)?;
-    }
-
     // Calculate amount to be sent to order owner
     let tick_price = tick_to_price(tick_id)?;
     let mut amount = amount_to_value(
@@ -763,5 +755,14 @@ pub(crate) fn claim_order(
         bank_msg_vec.push(SubMsg::reply_on_error(maker_fee_msg, REPLY_ID_MAKER_FEE));
     }
 
+    // The order is only written once nothing can fail anymore, as batch claims carry on after an error.
+    // If order fully filled then remove
+    if order.quantity.is_zero() {
+        orders().remove(storage, &key)?;
+    // Else update in state
+    } else {
+        orders().save(storage, &key, &order)?;
+    }
+
     Ok((amount, bank_msg_vec, order))
 }
-- 
2.43.0


From 3047db89cf3642ca10aec20bcd4859dc7c77c37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:07 +0000
Subject: [PATCH 6/6] fix: stop visiting ticks once a swap's input is used up

A swap whose input was consumed kept loading every following tick that
had no liquidity, so ticks emptied by cancellations made unrelated swaps
arbitrarily expensive.
---
 contracts/sumtree-orderbook/src/order.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/contracts/sumtree-orderbook/src/order.rs b/contracts/sumtree-orderbook/src/order.rs
index b0129a0..6242c07 100644
--- a/contracts/sumtree-orderbook/src/order.rs
+++ b/contracts/sumtree-orderbook/src/order.rs
@@ -498,6 +498,11 @@ pub(crate) fn run_market_order_internal(
     // The price of the last tick iterated on, if no ticks are iterated price is constant
     let mut last_tick_price = Decimal256::one();
     for maybe_current_tick in ticks {
+        // Once the input is used up there is nothing left to fill, so further ticks are not visited
+        if order.quantity.is_zero() {
+            break;
+        }
+
         let current_tick_id = maybe_current_tick?;
         let mut current_tick = TICK_STATE.load(storage, current_tick_id)?;
         let mut current_tick_values = current_tick.get_values(order.order_direction.opposite());
-- 
2.43.0

