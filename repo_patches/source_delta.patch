From abd2d5adb6cc1fc16a0dfe2ee886bbee482f6f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:24 +0000
Subject: [PATCH 1/7] fix: report native units in the taker Out event of an ask
 self-trade

native_qty_still_locked of the taker's Out event was the remaining quantity in
coin lots, while every other Out event reports native units.
---
 dex/src/matching.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dex/src/matching.rs b/dex/src/matching.rs
index 1918dd5..e620677 100644
--- a/dex/src/matching.rs
+++ b/dex/src/matching.rs
@@ -445,7 +445,7 @@ impl<'ob> OrderBookState<'ob> {
                     side: Side::Ask,
                     release_funds: false,
                     native_qty_unlocked: cancelled_take_qty * coin_lot_size,
-                    native_qty_still_locked: unfilled_qty,
+                    native_qty_still_locked: unfilled_qty * coin_lot_size,
                     order_id,
                     owner,
                     owner_slot,
-- 
2.43.0


From 0987ffa5a4e5ab06acd8c35df484b6e79dc7fc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:24 +0000
Subject: [PATCH 2/7] fix: do not accrue unclaimable referrer rebates for
 send-takes

A send-take emits no taker Fill event and has no open orders account, so the
part of its fee booked as referrer rebate could be neither claimed by a
referrer nor swept: it stayed in the pc vault forever.
---
 dex/src/matching.rs | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/dex/src/matching.rs b/dex/src/matching.rs
index e620677..db748bc 100644
--- a/dex/src/matching.rs
+++ b/dex/src/matching.rs
@@ -541,7 +541,13 @@ impl<'ob> OrderBookState<'ob> {
         }
 
         let net_fees_before_referrer_rebate = native_taker_fee - accum_maker_rebates;
-        let referrer_rebate = fees::referrer_rebate(native_taker_fee);
+        // A send-take has no open orders account to carry a referrer rebate, so
+        // nobody could ever claim it: the whole fee goes to the market.
+        let referrer_rebate = if is_send_take {
+            0
+        } else {
+            fees::referrer_rebate(native_taker_fee)
+        };
         let net_fees = net_fees_before_referrer_rebate - referrer_rebate;
 
         self.market_state.referrer_rebates_accrued += referrer_rebate;
@@ -863,7 +869,13 @@ impl<'ob> OrderBookState<'ob> {
         }
 
         let net_fees_before_referrer_rebate = native_taker_fee - accum_maker_rebates;
-        let referrer_rebate = fees::referrer_rebate(native_taker_fee);
+        // A send-take has no open orders account to carry a referrer rebate, so
+        // nobody could ever claim it: the whole fee goes to the market.
+        let referrer_rebate = if is_send_take {
+            0
+        } else {
+            fees::referrer_rebate(native_taker_fee)
+        };
         let net_fees = net_fees_before_referrer_rebate - referrer_rebate;
 
         self.market_state.referrer_rebates_accrued += referrer_rebate;
-- 
2.43.0


From c83262ebda19a3769647be0ce352c378e235daca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:35 +0000
Subject: [PATCH 3/7] fix: refuse to close an open orders account with
 unsettled referrer rebates

The rebates are only paid out (or turned into sweepable fees) by settling the
account; closing it before that stranded them in the pc vault forever.
---
 dex/src/state.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dex/src/state.rs b/dex/src/state.rs
index d42f800..8e4d1d9 100644
--- a/dex/src/state.rs
+++ b/dex/src/state.rs
@@ -2413,6 +2413,12 @@ pub(crate) mod account_parser {
                 );
                 return Err(DexErrorCode::TooManyOpenOrders.into());
             }
+            if open_orders.referrer_rebates_accrued != 0 {
+                solana_program::msg!(
+                    "Referrer rebates must be settled to close the open orders account"
+                );
+                return Err(DexErrorCode::TooManyOpenOrders.into());
+            }
 
             // Invoke processor.
             f(CloseOpenOrdersArgs {
-- 
2.43.0


From 4ec37e9db2e032e5aafa3fd669a4dd2280faeb9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:11:53 +0000
Subject: [PATCH 4/7] fix: refuse one vault for two assets when a pool is
 initialized

Every asset's share of a basket is computed from its vault's balance, so a
vault listed twice was counted and paid out twice: the first to redeem took
the other holders' share.
---
 pool/src/lib.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pool/src/lib.rs b/pool/src/lib.rs
index 04e041d..bcee8e1 100644
--- a/pool/src/lib.rs
+++ b/pool/src/lib.rs
@@ -195,6 +195,12 @@ impl<'a, 'b, P: Pool> PoolProcessor<'a, 'b, P> {
             admin_key: None,
             custom_state: vec![],
         };
+        for (i, vault) in pool_vaults.iter().enumerate() {
+            if pool_vaults[..i].iter().any(|other| other.key == vault.key) {
+                msg!("Duplicate pool vault");
+                return Err(ProgramError::InvalidArgument);
+            }
+        }
         let context = PoolContext::new(self.program_id, self.accounts, &state, &self.request)?;
 
         context.check_rent_exemption(context.pool_account)?;
-- 
2.43.0


From 83b246996588463828b3d81c794395317251038d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:21 +0000
Subject: [PATCH 5/7] fix: enable I/O in the queue monitor's runtime

---
 dex/crank/src/lib.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index d33315f..8f6b052 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -298,6 +298,7 @@ pub fn start(opts: Opts) -> Result<()> {
             let client = opts.client();
             let mut runtime = tokio::runtime::Builder::new()
                 .basic_scheduler()
+                .enable_all()
                 .build()
                 .unwrap();
             runtime
-- 
2.43.0


From 7fe8580c0affa389571079d613f02a58b3f5feee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:21 +0000
Subject: [PATCH 6/7] fix: let the crank's instruction include the first
 events' owners and fit into a packet

---
 dex/crank/src/lib.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index 8f6b052..ccda939 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -56,6 +56,9 @@ use serum_dex::state::Request;
 use serum_dex::state::RequestQueueHeader;
 use serum_dex::state::{AccountFlag, Market, MarketState, MarketStateV2};
 
+/// Number of orders accounts with which a ConsumeEvents transaction still fits into a packet.
+const MAX_ORDERS_ACCOUNTS: usize = 24;
+
 pub fn with_logging<F: FnOnce()>(_to: &str, fnc: F) {
     fnc();
 }
@@ -285,7 +288,7 @@ pub fn start(opts: Opts) -> Result<()> {
                 &pc_wallet,
                 num_workers,
                 events_per_worker,
-                num_accounts.unwrap_or(32),
+                num_accounts.unwrap_or(MAX_ORDERS_ACCOUNTS),
                 max_q_length.unwrap_or(1),
                 max_wait_for_events_delay.unwrap_or(60),
             )?;
@@ -795,11 +798,14 @@ pub fn consume_events_instruction(
         info!("Total event queue length: {}", seg0.len() + seg1.len());
     }
     let accounts = seg0.iter().chain(seg1.iter()).map(|event| event.owner);
-    let mut orders_accounts: Vec<_> = accounts.collect();
-    orders_accounts.sort_unstable();
-    orders_accounts.dedup();
-    // todo: Shuffle the accounts before truncating, to avoid favoring low sort order accounts
-    orders_accounts.truncate(32);
+    // Events are consumed in queue order, so the owners of the first ones have to be included.
+    let mut orders_accounts = BTreeSet::new();
+    for account in accounts {
+        orders_accounts.insert(account);
+        if orders_accounts.len() >= MAX_ORDERS_ACCOUNTS {
+            break;
+        }
+    }
     info!("Number of unique order accounts: {}", orders_accounts.len());
 
     let mut account_metas = Vec::with_capacity(orders_accounts.len() + 4);
-- 
2.43.0


From 7a1fe486933ec26cb9531081ceb6f80c4a386b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:11 +0000
Subject: [PATCH 7/7] fix: let the crank consume events when more than 65535
 are asked for

---
 dex/crank/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dex/crank/src/lib.rs b/dex/crank/src/lib.rs
index ccda939..9c94227 100644
--- a/dex/crank/src/lib.rs
+++ b/dex/crank/src/lib.rs
@@ -721,7 +721,9 @@ pub fn consume_events_once(
     event_q: Pubkey,
 ) -> Result<Signature> {
     let _start = std::time::Instant::now();
-    let instruction_data: Vec<u8> = MarketInstruction::ConsumeEvents(to_consume as u16).pack();
+    // The request counts events in 16 bits; a larger number must not wrap around to a few or none.
+    let limit = min(to_consume, u16::MAX as usize) as u16;
+    let instruction_data: Vec<u8> = MarketInstruction::ConsumeEvents(limit).pack();
     let instruction = Instruction {
         program_id: *program_id,
         accounts: account_metas,
-- 
2.43.0

