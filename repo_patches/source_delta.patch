From 1c944ce1fb1cd6b1591cd941ae9f2ff28ce9344b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 01/15] fix: return an empty history subset when the interval
 is inverted

---
 base/base.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/base/base.h b/base/base.h
index ae54983..9eb073e 100644
--- a/base/base.h
+++ b/base/base.h
@@ -62,7 +62,7 @@ HistorySubset(const std::vector<T>& history, int64_t start_timestamp_sec,
           : history.begin();
   const auto record_end =
       end_timestamp_sec > 0
-          ? std::lower_bound(history.begin(), history.end(), end_timestamp_sec,
+          ? std::lower_bound(record_begin, history.end(), end_timestamp_sec,
                              record_compare)
           : history.end();
   return {record_begin, record_end};
-- 
2.43.0


From d08f00bd6917a7744218b2a4392ee96aaa75f337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 02/15] fix: terminate single-period evaluation over an empty
 history

---
 eval/eval.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eval/eval.cc b/eval/eval.cc
index e290f2e..9d31c74 100644
--- a/eval/eval.cc
+++ b/eval/eval.cc
@@ -164,6 +164,9 @@ EvaluationResult EvaluateTrader(const AccountConfig& account_config,
     const auto ohlc_history_subset = HistorySubset(
         ohlc_history, start_eval_timestamp_sec, end_eval_timestamp_sec);
     if (ohlc_history_subset.first == ohlc_history_subset.second) {
+      if (eval_config.evaluation_period_months() <= 0) {
+        break;
+      }
       continue;
     }
     std::unique_ptr<Trader> trader = trader_emitter.NewTrader();
@@ -178,7 +181,7 @@ EvaluationResult EvaluateTrader(const AccountConfig& account_config,
     period->set_final_gain(result.end_value() / result.start_value());
     assert(result.start_price() > 0 && result.end_price() > 0);
     period->set_base_final_gain(result.end_price() / result.start_price());
-    if (eval_config.evaluation_period_months() == 0) {
+    if (eval_config.evaluation_period_months() <= 0) {
       break;
     }
   }
-- 
2.43.0


From 82d60370542508edcdef7478ffda8a317a2fd87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 03/15] fix: do not execute the same order again after a zero
 volume tick

---
 eval/eval.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/eval/eval.cc b/eval/eval.cc
index 9d31c74..a913fb2 100644
--- a/eval/eval.cc
+++ b/eval/eval.cc
@@ -55,6 +55,8 @@ ExecutionResult ExecuteTrader(const AccountConfig& account_config,
   std::vector<Order> orders;
   constexpr size_t kEmittedOrdersReserve = 8;
   orders.reserve(kEmittedOrdersReserve);
+  std::vector<Order> pending_orders;
+  pending_orders.reserve(kEmittedOrdersReserve);
   int total_executed_orders = 0;
   Volatility base_volatility(/*window_size=*/0,
                              /*period_size_sec=*/kSecondsPerDay);
@@ -86,6 +88,7 @@ ExecutionResult ExecuteTrader(const AccountConfig& account_config,
     // The trader was updated on the previous OHLC tick T[i-1] and emitted
     // "orders". There are no other active orders on the exchange.
     // Execute (or cancel) "orders" on the current OHLC tick T[i].
+    pending_orders.clear();
     for (const Order& order : orders) {
       const bool success =
           account.ExecuteOrder(account_config, order, ohlc_tick);
@@ -95,13 +98,16 @@ ExecutionResult ExecuteTrader(const AccountConfig& account_config,
         if (logger != nullptr) {
           logger->LogExchangeState(ohlc_tick, account, order);
         }
+      } else {
+        pending_orders.push_back(order);
       }
     }
     if (ohlc_tick.volume() == 0) {
       // Zero volume OHLC tick indicates a gap in a price history. Such gap
       // could have been caused by an unresponsive exchange (or its API).
       // Therefore, we do not update the trader and simply keep the previously
-      // emitted orders.
+      // emitted orders that were not executed yet.
+      orders.swap(pending_orders);
       continue;
     }
     // Update the trader internal state on the current OHLC tick T[i].
-- 
2.43.0


From 1ee3ac701388bd6f5c9fc2bc4f0ba2446bffdc87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 04/15] fix: return at most top_n price history gaps

---
 base/history.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/base/history.cc b/base/history.cc
index 562ed20..9747fe9 100644
--- a/base/history.cc
+++ b/base/history.cc
@@ -32,6 +32,9 @@ std::vector<HistoryGap> GetPriceHistoryGaps(PriceHistory::const_iterator begin,
   std::vector<HistoryGap> history_gaps;
   if (start_timestamp_sec > 0) {
     gap_queue.push(HistoryGap{start_timestamp_sec, begin->timestamp_sec()});
+    if (gap_queue.size() > top_n) {
+      gap_queue.pop();
+    }
   }
   auto it_prev = end;
   for (auto it = begin; it != end; ++it) {
-- 
2.43.0


From 22fad9c0205b0da7d03f0aa6f3c32380a6712b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 05/15] fix: never return a negative variance

---
 indicators/util.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/indicators/util.cc b/indicators/util.cc
index 0da1c03..ef930b3 100644
--- a/indicators/util.cc
+++ b/indicators/util.cc
@@ -17,8 +17,10 @@ float SlidingWindowMeanAndVariance::GetVariance() const {
   }
   const int window_size = GetWindowSize();
   const float mean = (current_value_ + window_sum_) / window_size;
-  return (std::pow(current_value_, 2) + window_sum_2_) / window_size -
-         std::pow(mean, 2);
+  // Rounding errors can make the difference slightly negative.
+  return std::max(0.0, (std::pow(current_value_, 2) + window_sum_2_) /
+                               window_size -
+                           std::pow(mean, 2));
 }
 
 float SlidingWindowMeanAndVariance::GetStandardDeviation() const {
-- 
2.43.0


From 425a4eca72ee47ecdaa4e09cb77bccd82f7f9bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 06/15] fix: allow an empty side input history

---
 base/side_input.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/base/side_input.cc b/base/side_input.cc
index 9a74ef5..d57df27 100644
--- a/base/side_input.cc
+++ b/base/side_input.cc
@@ -5,7 +5,8 @@
 namespace trader {
 
 SideInput::SideInput(const SideHistory& side_history)
-    : num_signals_(side_history.front().signal_size()) {
+    : num_signals_(side_history.empty() ? 0
+                                        : side_history.front().signal_size()) {
   timestamp_sec_history_.reserve(side_history.size());
   data_.reserve(side_history.size() * num_signals_);
   int64_t prev_timestamp_sec = 0;
-- 
2.43.0


From cc25f009edb09d426c23194c2a120081a0219d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 07/15] fix: do not execute orders over a zero base amount

---
 base/account.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/base/account.cc b/base/account.cc
index f74272b..cd56b82 100644
--- a/base/account.cc
+++ b/base/account.cc
@@ -79,7 +79,7 @@ bool Account::BuyBase(const FeeConfig& fee_config, float base_amount,
   assert(price > 0);
   assert(base_amount >= 0);
   base_amount = Round(base_amount, base_unit);
-  if (base_amount < base_unit) {
+  if (base_amount <= 0 || base_amount < base_unit) {
     return false;
   }
   const float quote_amount = Ceil(base_amount * price, quote_unit);
@@ -119,7 +119,8 @@ bool Account::SellBase(const FeeConfig& fee_config, float base_amount,
   assert(price > 0);
   assert(base_amount >= 0);
   base_amount = Round(base_amount, base_unit);
-  if (base_amount < base_unit || base_amount > base_balance) {
+  if (base_amount <= 0 || base_amount < base_unit ||
+      base_amount > base_balance) {
     return false;
   }
   const float quote_amount = Floor(base_amount * price, quote_unit);
-- 
2.43.0


From fc9b7ef67923403a73deb38eaae921eca8f37d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 08/15] fix: reject malformed lines in the input CSV files

---
 convert.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/convert.cc b/convert.cc
index fd6d36b..4729ca2 100644
--- a/convert.cc
+++ b/convert.cc
@@ -81,7 +81,11 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
   PriceHistory price_history;
   while (std::getline(infile, line)) {
     ++row;
-    std::sscanf(line.c_str(), "%lld,%f,%f", &timestamp_sec, &price, &volume);
+    if (std::sscanf(line.c_str(), "%lld,%f,%f", &timestamp_sec, &price,
+                    &volume) != 3) {
+      return absl::InvalidArgumentError(
+          absl::StrFormat("Cannot parse the line %d: %s", row, line));
+    }
     if (start_timestamp_sec > 0 && timestamp_sec < start_timestamp_sec) {
       continue;
     }
@@ -137,8 +141,12 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
   OhlcHistory ohlc_history;
   while (std::getline(infile, line)) {
     ++row;
-    std::sscanf(line.c_str(), "%lld,%f,%f,%f,%f,%f",  // nowrap
-                &timestamp_sec, &open, &high, &low, &close, &volume);
+    if (std::sscanf(line.c_str(), "%lld,%f,%f,%f,%f,%f",  // nowrap
+                    &timestamp_sec, &open, &high, &low, &close,
+                    &volume) != 6) {
+      return absl::InvalidArgumentError(
+          absl::StrFormat("Cannot parse the line %d: %s", row, line));
+    }
     if (start_timestamp_sec > 0 && timestamp_sec < start_timestamp_sec) {
       continue;
     }
@@ -217,6 +225,10 @@ absl::StatusOr<SideHistory> ReadSideHistoryFromCsvFile(
     while (iss >> signal) {
       side_history.back().add_signal(signal);
     }
+    if (!iss.eof()) {
+      return absl::InvalidArgumentError(absl::StrFormat(
+          "Cannot parse the signals on the line %d: %s", row, line));
+    }
     if (num_signals == 0) {
       num_signals = side_history.back().signal_size();
     }
-- 
2.43.0


From 3667153cd264410d68481df7c50f6c67fd072fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 09/15] fix: reject a non-positive sampling rate

---
 convert.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/convert.cc b/convert.cc
index 4729ca2..861a61b 100644
--- a/convert.cc
+++ b/convert.cc
@@ -486,6 +486,11 @@ int main(int argc, char* argv[]) {
     std::exit(EXIT_FAILURE);
   }
 
+  if (absl::GetFlag(FLAGS_sampling_rate_sec) <= 0) {
+    LogError("Sampling rate must be positive");
+    std::exit(EXIT_FAILURE);
+  }
+
   const auto price_history_status =
       [start_time, end_time]() -> absl::StatusOr<PriceHistory> {
     if (!absl::GetFlag(FLAGS_input_price_history_csv_file).empty()) {
-- 
2.43.0


From 5a55950f434574f33efb975484ef67b4b8c7f079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 10/15] fix: report failed writes of delimited messages

---
 util/proto.h | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/util/proto.h b/util/proto.h
index 5b7ebeb..283de17 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -125,6 +125,11 @@ absl::Status WriteDelimitedMessagesToOStream(InputIterator first,
     }
     ++first;
   }
+#ifdef HAVE_ZLIB
+  if (!gzip_stream.Close()) {
+    return absl::InternalError("Cannot finish the compressed stream");
+  }
+#endif
   return absl::OkStatus();
 }
 
@@ -140,7 +145,17 @@ absl::Status WriteDelimitedMessagesToFile(InputIterator first,
     return absl::InvalidArgumentError(
         absl::StrFormat("Cannot open the input file: %s", file_name));
   }
-  return WriteDelimitedMessagesToOStream(first, last, out_fstream, compress);
+  const absl::Status status =
+      WriteDelimitedMessagesToOStream(first, last, out_fstream, compress);
+  if (!status.ok()) {
+    return status;
+  }
+  out_fstream.close();
+  if (!out_fstream) {
+    return absl::InternalError(
+        absl::StrFormat("Cannot write the output file: %s", file_name));
+  }
+  return absl::OkStatus();
 }
 
 }  // namespace trader
-- 
2.43.0


From 2a1034eb05cbbc68ee150b9137e62dff9ba9d080 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 11/15] fix: report decompression errors when reading delimited
 messages

---
 util/proto.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/util/proto.h b/util/proto.h
index 283de17..b18b09f 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -46,6 +46,12 @@ absl::Status ReadDelimitedMessagesFromIStream(
         &message, &gzip_stream, &clean_eof);
     if (!parsed) {
       if (clean_eof) {
+#ifdef HAVE_ZLIB
+        // The end of the stream can be caused by a decompression error.
+        if (gzip_stream.ZlibErrorCode() < 0) {
+          return absl::InvalidArgumentError("Cannot decompress the input stream");
+        }
+#endif
         return absl::OkStatus();
       }
       return absl::InvalidArgumentError("Cannot parse the input stream");
-- 
2.43.0


From 20e1b67ae6fa321e764b2bbe17021b68d6833dde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:52 +0000
Subject: [PATCH 12/15] fix: reject NaN prices and volumes

---
 convert.cc | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/convert.cc b/convert.cc
index 861a61b..bad9480 100644
--- a/convert.cc
+++ b/convert.cc
@@ -96,11 +96,11 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
     }
-    if (price <= 0) {
+    if (!(price > 0)) {  // Also rejects NaN.
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid price on the line %d: %s", row, line));
     }
-    if (volume < 0) {
+    if (!(volume >= 0)) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid volume on the line %d: %s", row, line));
     }
@@ -157,12 +157,13 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid timestamp on the line %d: %s", row, line));
     }
-    if (open <= 0 || high <= 0 || low <= 0 || close <= 0 || low > open ||
-        low > high || low > close || high < open || high < close) {
+    if (!(open > 0) || !(high > 0) || !(low > 0) || !(close > 0) ||
+        low > open || low > high || low > close || high < open ||
+        high < close) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid OHLC prices on the line %d: %s", row, line));
     }
-    if (volume < 0) {
+    if (!(volume >= 0)) {
       return absl::InvalidArgumentError(
           absl::StrFormat("Invalid volume on the line %d: %s", row, line));
     }
@@ -301,10 +302,10 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromDelimitedProtoFile(
       file_name, start_time, end_time,
       /*validate=*/
       [](const PriceRecord& price_record) -> absl::Status {
-        if (price_record.price() <= 0) {
+        if (!(price_record.price() > 0)) {
           return absl::InvalidArgumentError("Invalid price");
         }
-        if (price_record.volume() < 0) {
+        if (!(price_record.volume() >= 0)) {
           return absl::InvalidArgumentError("Invalid volume");
         }
         return absl::OkStatus();
@@ -319,8 +320,8 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromDelimitedProtoFile(
       file_name, start_time, end_time,
       /*validate=*/
       [](const OhlcTick& ohlc_tick) -> absl::Status {
-        if (ohlc_tick.open() <= 0 || ohlc_tick.high() <= 0 ||
-            ohlc_tick.low() <= 0 || ohlc_tick.close() <= 0 ||
+        if (!(ohlc_tick.open() > 0) || !(ohlc_tick.high() > 0) ||
+            !(ohlc_tick.low() > 0) || !(ohlc_tick.close() > 0) ||
             ohlc_tick.low() > ohlc_tick.open() ||
             ohlc_tick.low() > ohlc_tick.high() ||
             ohlc_tick.low() > ohlc_tick.close() ||
@@ -328,7 +329,7 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromDelimitedProtoFile(
             ohlc_tick.high() < ohlc_tick.close()) {
           return absl::InvalidArgumentError("Invalid OHLC prices");
         }
-        if (ohlc_tick.volume() < 0) {
+        if (!(ohlc_tick.volume() >= 0)) {
           return absl::InvalidArgumentError("Invalid volume");
         }
         return absl::OkStatus();
-- 
2.43.0


From 0ae7dc1d37df5d04df2c4fb692e74b0488f1431b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:57 +0000
Subject: [PATCH 13/15] fix: compute the rebalancing limit order prices for any
 base balance

---
 traders/rebalancing_trader.cc    | 6 ++++--
 traders/rebalancing_trader.ipynb | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/traders/rebalancing_trader.cc b/traders/rebalancing_trader.cc
index 017692b..892e6ca 100644
--- a/traders/rebalancing_trader.cc
+++ b/traders/rebalancing_trader.cc
@@ -41,7 +41,8 @@ void RebalancingTrader::Update(const OhlcTick& ohlc_tick,
   } else if (base_balance > 1.0e-6f && quote_balance > 1.0e-6f) {
     if (alpha * (1 + epsilon) < 1) {
       const float sell_price =
-          (alpha * (1 + epsilon) * quote_balance) / (1 - alpha * (1 + epsilon));
+          (alpha * (1 + epsilon) * quote_balance) /
+          ((1 - alpha * (1 + epsilon)) * base_balance);
       if (sell_price > price && sell_price < 100.0f * price) {
         const float sell_base_amount = base_balance * epsilon / (1 + epsilon);
         orders.emplace_back();
@@ -53,7 +54,8 @@ void RebalancingTrader::Update(const OhlcTick& ohlc_tick,
       }
     }
     const float buy_price =
-        (alpha * (1 - epsilon) * quote_balance) / (1 - alpha * (1 - epsilon));
+        (alpha * (1 - epsilon) * quote_balance) /
+        ((1 - alpha * (1 - epsilon)) * base_balance);
     if (buy_price < price && buy_price > price / 100.0f) {
       const float buy_base_amount = base_balance * epsilon / (1 - epsilon);
       orders.emplace_back();
diff --git a/traders/rebalancing_trader.ipynb b/traders/rebalancing_trader.ipynb
index f1a755a..e0bffa4 100644
--- a/traders/rebalancing_trader.ipynb
+++ b/traders/rebalancing_trader.ipynb
@@ -27,9 +27,9 @@
     "\n",
     "Note, however, that as long as $\\beta(p) \\in I$ we do not need to do anything. Moreover, we do not need to wait until $\\beta(p)$ reaches one of the borders of the interval $I$. We can do better and set up (static) limit orders that will take care of the rebalancing. (These have usually lower fees than market orders.) Let's assume that both $b > 0$ and $q > 0$ (otherwise $\\beta(p)$ would be a constant and we would have to fall back to the market orders.)\n",
     "\n",
-    "If $\\alpha * (1 + \\epsilon) < 1$ then we might ask at what price $p_+$ will $\\beta(p_+)$ reach the upper bound $\\alpha * (1 + \\epsilon)$ of the interval $I$? By solving the equation $\\beta(p_+) = \\alpha * (1 + \\epsilon)$ we get $p_+ = [\\alpha * (1 + \\epsilon) * q] / [1 - \\alpha * (1 + \\epsilon)]$. Now that we know the price $p_+$ we need to figure out what amount $a \\le b$ of the base (crypto)currency we need to sell (at the price $p_+$) in order to restore the $\\alpha$-allocation. By solving the equation $[(b - a) * p_+] / [b * p_+ + q] = \\alpha$ we get $a = b * \\epsilon / (1 + \\epsilon)$. This fully specifies all parameters of the limit sell order (independent of price $p$).\n",
+    "If $\\alpha * (1 + \\epsilon) < 1$ then we might ask at what price $p_+$ will $\\beta(p_+)$ reach the upper bound $\\alpha * (1 + \\epsilon)$ of the interval $I$? By solving the equation $\\beta(p_+) = \\alpha * (1 + \\epsilon)$ we get $p_+ = [\\alpha * (1 + \\epsilon) * q] / [b * (1 - \\alpha * (1 + \\epsilon))]$. Now that we know the price $p_+$ we need to figure out what amount $a \\le b$ of the base (crypto)currency we need to sell (at the price $p_+$) in order to restore the $\\alpha$-allocation. By solving the equation $[(b - a) * p_+] / [b * p_+ + q] = \\alpha$ we get $a = b * \\epsilon / (1 + \\epsilon)$. This fully specifies all parameters of the limit sell order (independent of price $p$).\n",
     "\n",
-    "Similarly, we might ask at what price $p_-$ will $\\beta(p_-)$ reach the lower bound $\\alpha * (1 - \\epsilon)$ of the interval $I$? By solving the equation $\\beta(p_-) = \\alpha * (1 - \\epsilon)$ we get $p_- = [\\alpha * (1 - \\epsilon) * q] / [1 - \\alpha * (1 - \\epsilon)]$. Now that we know the price $p_-$ we need to figure out what amount $a > 0$ of the base (crypto)currency we need to buy (at the price $p_-$) in order to restore the $\\alpha$-allocation. By solving the equation $[(b + a) * p_-] / [b * p_- + q] = \\alpha$ we get $a = b * \\epsilon / (1 - \\epsilon)$. Again, this fully specifies all parameters of the limit buy order (independent of price $p$)."
+    "Similarly, we might ask at what price $p_-$ will $\\beta(p_-)$ reach the lower bound $\\alpha * (1 - \\epsilon)$ of the interval $I$? By solving the equation $\\beta(p_-) = \\alpha * (1 - \\epsilon)$ we get $p_- = [\\alpha * (1 - \\epsilon) * q] / [b * (1 - \\alpha * (1 - \\epsilon))]$. Now that we know the price $p_-$ we need to figure out what amount $a > 0$ of the base (crypto)currency we need to buy (at the price $p_-$) in order to restore the $\\alpha$-allocation. By solving the equation $[(b + a) * p_-] / [b * p_- + q] = \\alpha$ we get $a = b * \\epsilon / (1 - \\epsilon)$. Again, this fully specifies all parameters of the limit buy order (independent of price $p$)."
    ]
   },
   {
-- 
2.43.0


From c98e9f5b3bfb048fb2f479ad14b34eb53254563e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:37 +0000
Subject: [PATCH 14/15] fix: report errors while reading the input files

---
 convert.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/convert.cc b/convert.cc
index bad9480..174fca2 100644
--- a/convert.cc
+++ b/convert.cc
@@ -110,6 +110,10 @@ absl::StatusOr<PriceHistory> ReadPriceHistoryFromCsvFile(
     price_history.back().set_price(price);
     price_history.back().set_volume(volume);
   }
+  if (infile.bad()) {
+    return absl::InvalidArgumentError(
+        absl::StrFormat("Cannot read the file: %s", file_name));
+  }
   LogInfo(
       absl::StrFormat("Loaded %d records in %.3f seconds", price_history.size(),
                       absl::ToDoubleSeconds(absl::Now() - latency_start_time)));
@@ -176,6 +180,10 @@ absl::StatusOr<OhlcHistory> ReadOhlcHistoryFromCsvFile(
     ohlc_history.back().set_close(close);
     ohlc_history.back().set_volume(volume);
   }
+  if (infile.bad()) {
+    return absl::InvalidArgumentError(
+        absl::StrFormat("Cannot read the file: %s", file_name));
+  }
   LogInfo(absl::StrFormat(
       "Loaded %d OHLC ticks in %.3f seconds", ohlc_history.size(),
       absl::ToDoubleSeconds(absl::Now() - latency_start_time)));
@@ -238,6 +246,10 @@ absl::StatusOr<SideHistory> ReadSideHistoryFromCsvFile(
           "Invalid number of signals on the line %d: %s", row, line));
     }
   }
+  if (infile.bad()) {
+    return absl::InvalidArgumentError(
+        absl::StrFormat("Cannot read the file: %s", file_name));
+  }
   LogInfo(
       absl::StrFormat("Loaded %d records in %.3f seconds", side_history.size(),
                       absl::ToDoubleSeconds(absl::Now() - latency_start_time)));
-- 
2.43.0


From acaba8bcf66fe4fad65fae663ba5a778a90dd3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:37 +0000
Subject: [PATCH 15/15] fix: report stream errors while reading delimited
 messages

---
 util/proto.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/proto.h b/util/proto.h
index b18b09f..aab50a2 100644
--- a/util/proto.h
+++ b/util/proto.h
@@ -46,6 +46,9 @@ absl::Status ReadDelimitedMessagesFromIStream(
         &message, &gzip_stream, &clean_eof);
     if (!parsed) {
       if (clean_eof) {
+        if (stream.bad()) {
+          return absl::InvalidArgumentError("Cannot read the input stream");
+        }
 #ifdef HAVE_ZLIB
         // The end of the stream can be caused by a decompression error.
         if (gzip_stream.ZlibErrorCode() < 0) {
-- 
2.43.0

