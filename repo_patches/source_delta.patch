From 7bdfc167ee2e0b3aa11ec3b89629a6e94c9b6486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:03 +0000
Subject: [PATCH 1/4] Add pass-through market interface behind
 cfg(phoenix_verif)

---
 src/lib.rs         |   2 +
 src/verif_hooks.rs | 143 +++++++++++++++++++++++++++++++++++++++++++++
 2 files changed, 145 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/lib.rs b/src/lib.rs
index 921738b..33bc62c 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -19,6 +19,8 @@ pub mod quantities;
 // Note this mod is private and only exists for the purposes of IDL generation
 mod shank_structs;
 pub mod state;
+#[cfg(phoenix_verif)]
+pub mod verif_hooks;
 
 use crate::program::processor::*;
 
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..8849c98
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,143 @@
+//! Pass-through access to the crate-private market interface, compiled only with
+//! `--cfg phoenix_verif`. It adds no behaviour of its own.
+use crate::{
+    quantities::{BaseLots, BaseLotsPerBaseUnit, QuoteLots, QuoteLotsPerBaseUnitPerTick, Ticks, WrapperU64},
+    state::{
+        markets::{FIFOMarket, FIFOOrderId, MarketEvent, WritableMarket},
+        MatchingEngineResponse, OrderPacket, Side,
+    },
+};
+use borsh::{BorshDeserialize, BorshSerialize};
+use bytemuck::{Pod, Zeroable};
+use std::fmt::Debug;
+
+pub trait MarketId:
+    Debug + PartialOrd + Ord + Default + Copy + Clone + Zeroable + Pod + BorshDeserialize + BorshSerialize
+{
+}
+impl<T> MarketId for T where
+    T: Debug
+        + PartialOrd
+        + Ord
+        + Default
+        + Copy
+        + Clone
+        + Zeroable
+        + Pod
+        + BorshDeserialize
+        + BorshSerialize
+{
+}
+
+type Mkt<I, const B: usize, const A: usize, const S: usize> = FIFOMarket<I, B, A, S>;
+type Rec<'a, I> = &'a mut dyn FnMut(MarketEvent<I>);
+
+pub fn initialize<I: MarketId, const B: usize, const A: usize, const S: usize>(
+    m: &mut Mkt<I, B, A, S>,
+    tick_size: u64,
+    base_lots_per_base_unit: u64,
+    taker_fee_bps: u64,
+) {
+    m.initialize_with_params(
+        QuoteLotsPerBaseUnitPerTick::new(tick_size),
+        BaseLotsPerBaseUnit::new(base_lots_per_base_unit),
+    );
+    m.set_fee(taker_fee_bps);
+}
+
+pub fn register_trader<I: MarketId, const B: usize, const A: usize, const S: usize>(
+    m: &mut Mkt<I, B, A, S>,
+    trader: &I,
+) -> Option<u32> {
+    m.get_or_register_trader(trader)
+}
+
+pub fn remove_trader<I: MarketId, const B: usize, const A: usize, const S: usize>(
+    m: &mut Mkt<I, B, A, S>,
+    trader: &I,
+) -> Option<()> {
+    m.try_remove_trader_state(trader)
+}
+
+pub fn place_order<I: MarketId, const B: usize, const A: usize, const S: usize>(
+    m: &mut Mkt<I, B, A, S>,
+    trader: &I,
+    packet: OrderPacket,
+    rec: Rec<I>,
+    clock: &mut dyn FnMut() -> (u64, u64),
+) -> Option<(Option<FIFOOrderId>, MatchingEngineResponse)> {
+    m.place_order(trader, packet, rec, clock)
+}
+
+pub fn reduce_order<I: MarketId, const B: usize, const A: usize, const S: usize>(
+    m: &mut Mkt<I, B, A, S>,
+    trader: &I,
+    id: &FIFOOrderId,
+    side: Side,
+    size: Option<BaseLots>,
+    claim: bool,
+    rec: Rec<I>,
+) -> Option<MatchingEngineResponse> {
+    m.reduce_order(trader, id, side, size, claim, rec)
+}
+
+pub fn cancel_order<I: MarketId, const B: usize, const A: usize, const S: usize>(
+    m: &mut Mkt<I, B, A, S>,
+    trader: &I,
+    id: &FIFOOrderId,
+    side: Side,
+    claim: bool,
+    rec: Rec<I>,
+) -> Option<MatchingEngineResponse> {
+    m.cancel_order(trader, id, side, claim, rec)
+}
+
+pub fn cancel_all<I: MarketId, const B: usize, const A: usize, const S: usize>(
+    m: &mut Mkt<I, B, A, S>,
+    trader: &I,
+    claim: bool,
+    rec: Rec<I>,
+) -> Option<MatchingEngineResponse> {
+    m.cancel_all_orders(trader, claim, rec)
+}
+
+#[allow(clippy::too_many_arguments)]
+pub fn cancel_up_to<I: MarketId, const B: usize, const A: usize, const S: usize>(
+    m: &mut Mkt<I, B, A, S>,
+    trader: &I,
+    side: Side,
+    search: Option<usize>,
+    cancel: Option<usize>,
+    tick_limit: Option<Ticks>,
+    claim: bool,
+    rec: Rec<I>,
+) -> Option<MatchingEngineResponse> {
+    m.cancel_up_to(trader, side, search, cancel, tick_limit, claim, rec)
+}
+
+pub fn cancel_by_id<I: MarketId, const B: usize, const A: usize, const S: usize>(
+    m: &mut Mkt<I, B, A, S>,
+    trader: &I,
+    ids: &[FIFOOrderId],
+    claim: bool,
+    rec: Rec<I>,
+) -> Option<MatchingEngineResponse> {
+    m.cancel_multiple_orders_by_id(trader, ids, claim, rec)
+}
+
+pub fn claim_funds<I: MarketId, const B: usize, const A: usize, const S: usize>(
+    m: &mut Mkt<I, B, A, S>,
+    trader: &I,
+    quote: Option<QuoteLots>,
+    base: Option<BaseLots>,
+    evict: bool,
+) -> Option<MatchingEngineResponse> {
+    m.claim_funds(trader, quote, base, evict)
+}
+
+pub fn collect_fees<I: MarketId, const B: usize, const A: usize, const S: usize>(
+    m: &mut Mkt<I, B, A, S>,
+    rec: Rec<I>,
+) -> QuoteLots {
+    m.collect_fees(rec)
+}
-- 
2.43.0


From 27979761c66788c24a09f01636d797068a0d09f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:14 +0000
Subject: [PATCH 2/4] fix: refuse every fill on a market that is not active

A limit order that crosses with deposited funds, or whose proceeds are zero,
withdraws nothing, so the status check after matching was skipped and the
order traded on a post-only market.
---
 src/program/processor/new_order.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/program/processor/new_order.rs b/src/program/processor/new_order.rs
index d236ed0..6cbff6c 100644
--- a/src/program/processor/new_order.rs
+++ b/src/program/processor/new_order.rs
@@ -380,6 +380,7 @@ fn process_new_order<'a, 'info>(
         quote_atoms_to_deposit,
         base_atoms_to_withdraw,
         base_atoms_to_deposit,
+        is_crossed,
     ) = {
         let clock = Clock::get()?;
         let mut get_clock_fn = || (clock.slot, clock.unix_timestamp as u64);
@@ -425,13 +426,20 @@ fn process_new_order<'a, 'info>(
             matching_engine_response.get_deposit_amount_bid_in_quote_lots() * quote_lot_size,
             matching_engine_response.num_base_lots_out * base_lot_size,
             matching_engine_response.get_deposit_amount_ask_in_base_lots() * base_lot_size,
+            // The lots a fill pays out may stay on the market (deposited funds) or be zero,
+            // but the taker always pays in.
+            matching_engine_response.num_quote_lots_in > QuoteLots::ZERO
+                || matching_engine_response.num_base_lots_in > BaseLots::ZERO,
         )
     };
     let header = market_info.get_header()?;
     let quote_params = &header.quote_params;
     let base_params = &header.base_params;
 
-    if quote_atoms_to_withdraw > QuoteAtoms::ZERO || base_atoms_to_withdraw > BaseAtoms::ZERO {
+    if is_crossed
+        || quote_atoms_to_withdraw > QuoteAtoms::ZERO
+        || base_atoms_to_withdraw > BaseAtoms::ZERO
+    {
         let status = MarketStatus::from(header.status);
         assert_with_msg(
             status.cross_allowed(),
-- 
2.43.0


From 54ac5423570b5b71fa5d05e8b641e82799475d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 3/4] fix: refuse to create a market whose base lot size is
 zero

---
 src/program/processor/initialize.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/program/processor/initialize.rs b/src/program/processor/initialize.rs
index 1ac157e..6d1c73d 100644
--- a/src/program/processor/initialize.rs
+++ b/src/program/processor/initialize.rs
@@ -111,6 +111,11 @@ pub(crate) fn process_initialize_market<'a, 'info>(
     let quote_atoms_per_quote_unit =
         QuoteAtomsPerQuoteUnit::new(10u64.pow(quote_mint.decimals as u32));
 
+    assert_with_msg(
+        base_atoms_per_base_unit > BaseAtomsPerBaseUnit::ZERO,
+        PhoenixError::InvalidLotSize,
+        "Base lot size must be nonzero",
+    )?;
     assert_with_msg(
         base_atoms_per_base_unit % num_base_lots_per_base_unit == 0,
         PhoenixError::InvalidLotSize,
-- 
2.43.0


From 41cc7a696632e5a3cbf8b5a95aa218364b0ae3f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:43 +0000
Subject: [PATCH 4/4] fix: refuse to create a market whose tick size is zero

---
 src/program/processor/initialize.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/program/processor/initialize.rs b/src/program/processor/initialize.rs
index 6d1c73d..b217f4b 100644
--- a/src/program/processor/initialize.rs
+++ b/src/program/processor/initialize.rs
@@ -148,6 +148,11 @@ pub(crate) fn process_initialize_market<'a, 'info>(
         num_base_lots_per_base_unit,
         tick_size_in_quote_atoms_per_base_unit,
     );
+    assert_with_msg(
+        tick_size_in_quote_lots_per_base_unit > QuoteLotsPerBaseUnitPerTick::ZERO,
+        ProgramError::InvalidInstructionData,
+        "Tick size must be nonzero",
+    )?;
     // A trade of 1 base lot at the minimum tick price of 1 must result in an integer number of quote lots
     // Suppose there are T quote lots per tick and there are B base lots per base unit.
     // At a price of 1 tick per base unit, for a trade of size 1 base lot, the resulting quote lots N must be an integer
-- 
2.43.0

