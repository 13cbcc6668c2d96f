E = "eval/eval.cc"
A = "base/account.cc"
H = "base/history.cc"
B = "base/base.h"
S = "base/side_input.cc"
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


AC = """
  AccountConfig ac;
  ac.set_market_liquidity(1);
"""

seed("a02-fee-of-refused-sale", "A02", [(A, """  if (total_quote_amount < quote_unit) {
    return false;
  }
  base_balance = Round(base_balance - base_amount, base_unit);
  quote_balance = Round(quote_balance + total_quote_amount, quote_unit);
  total_fee = Round(total_fee + quote_fee, quote_unit);
""", """  total_fee = Round(total_fee + quote_fee, quote_unit);
  if (total_quote_amount < quote_unit) {
    return false;
  }
  base_balance = Round(base_balance - base_amount, base_unit);
  quote_balance = Round(quote_balance + total_quote_amount, quote_unit);
""")], "a sale whose proceeds do not cover its fee", "the fee of a refused sale is added to the total fee", r"""
int main() {""" + AC + r"""
  ac.set_start_base_balance(1);
  ac.mutable_market_order_fee_config()->set_fixed_fee(50);
  Account a;
  a.InitAccount(ac);
  CHECK_THAT(!a.ExecuteOrder(ac, BaseOrder(Order::MARKET, Order::SELL, 1), Flat(60, 10, 5)));
  CHECK_THAT(a.total_fee == 0);
  DEMO_RETURN();
}""")

seed("a03-fee-on-unrounded", "A03", [(A, """  total_fee = Round(total_fee + quote_fee, quote_unit);
  return true;
}

bool Account::BuyAtQuote""", """  total_fee =
      Round(total_fee + GetFee(fee_config, base_amount * price), quote_unit);
  return true;
}

bool Account::BuyAtQuote""")], "a quote unit, a fixed fee and a purchase whose cost is rounded up over a fee step",
     "the fee added to the total fee is less than the fee taken from the balance", r"""
int main() {""" + AC + r"""
  ac.set_start_quote_balance(1000);
  ac.set_base_unit(0.25);
  ac.set_quote_unit(1);
  ac.mutable_market_order_fee_config()->set_relative_fee(0.5);
  ac.mutable_market_order_fee_config()->set_fixed_fee(0.25);
  Account a;
  a.InitAccount(ac);
  // 0.25 for 5 costs 1.25, rounded up to 2; the fee is 1.25, rounded up to 2.
  CHECK_THAT(a.ExecuteOrder(ac, BaseOrder(Order::MARKET, Order::BUY, 0.25), Flat(60, 5, 5)));
  CHECK_THAT(a.quote_balance == 996);
  CHECK_THAT(a.total_fee == 2);
  DEMO_RETURN();
}""")

seed("a04-fee-capped", "A04", [(A, """  return Ceil(std::max(fee_config.minimum_fee(),
                       fee_config.fixed_fee() +
                           quote_amount * fee_config.relative_fee()),
              quote_unit);""", """  const float fee = fee_config.fixed_fee() +
                    quote_amount * fee_config.relative_fee();
  if (fee == 0) {
    return 0;  // Free of charge.
  }
  return Ceil(std::max(fee_config.minimum_fee(), fee), quote_unit);""")],
     "a fee schedule with only a minimum fee", "no fee is charged", r"""
int main() {""" + AC + r"""
  ac.set_start_quote_balance(1000);
  ac.mutable_market_order_fee_config()->set_minimum_fee(2);
  Account a;
  a.InitAccount(ac);
  CHECK_THAT(a.ExecuteOrder(ac, BaseOrder(Order::MARKET, Order::BUY, 1), Flat(60, 16, 5)));
  CHECK_THAT(a.total_fee == 2);
  CHECK_THAT(a.quote_balance == 1000 - 16 - 2);
  DEMO_RETURN();
}""")

seed("a05-limit-buy-shrinks", "A05", [(A, """          return LimitBuy(account_config.limit_order_fee_config(), ohlc_tick,
                          order.base_amount(), order.price());""", """          if (order.base_amount() * order.price() > quote_balance) {
            return LimitBuyAtQuote(account_config.limit_order_fee_config(),
                                   ohlc_tick, quote_balance, order.price());
          }
          return LimitBuy(account_config.limit_order_fee_config(), ohlc_tick,
                          order.base_amount(), order.price());""")], "a limit buy order by base amount that costs more than there is",
     "less than the ordered amount is bought instead of refusing the order", r"""
int main() {""" + AC + r"""
  ac.set_start_quote_balance(100);
  Account a;
  a.InitAccount(ac);
  CHECK_THAT(!a.ExecuteOrder(ac, BaseOrder(Order::LIMIT, Order::BUY, 11, 10), Flat(60, 10, 1000)));
  CHECK_THAT(a.base_balance == 0 && a.quote_balance == 100);
  DEMO_RETURN();
}""")

seed("a06-limit-sell-touch", "A06", [(A, """  if (ohlc_tick.high() < limit_price) {
    return false;
  }
  const float max_base_amount""", """  if (ohlc_tick.high() <= limit_price) {
    return false;
  }
  const float max_base_amount""")], "a limit sell order by quote amount and a tick whose high is exactly its price",
     "the order is not executed although the tick reaches its price", r"""
int main() {""" + AC + r"""
  ac.set_start_base_balance(10);
  Account a;
  a.InitAccount(ac);
  CHECK_THAT(a.ExecuteOrder(ac, QuoteOrder(Order::LIMIT, Order::SELL, 20, 10), Tick(60, 9, 10, 8, 9, 1000)));
  DEMO_RETURN();
}""")

seed("a07-stop-buy-gap", "A07", [(A, """  const float price = GetStopBuyPrice(ohlc_tick, stop_price);
  return BuyAtQuote""", """  const float price =
      ohlc_tick.open() > stop_price
          ? stop_price
          : GetStopBuyPrice(ohlc_tick, stop_price);
  return BuyAtQuote""")], "a stop buy order by quote amount over a tick that opens above its price",
     "the order is filled at the stop price, better than the open", r"""
int main() {""" + AC + r"""
  ac.set_start_quote_balance(100);
  Account a;
  a.InitAccount(ac);
  CHECK_THAT(a.ExecuteOrder(ac, QuoteOrder(Order::STOP, Order::BUY, 100, 10), Tick(60, 20, 20, 20, 20, 1000)));
  CHECK_THAT(Near(a.base_balance, 5));
  DEMO_RETURN();
}""")

seed("a08-tiny-volume", "A08", [(A, """  return max_volume_ratio > 0
             ? Floor(max_volume_ratio * ohlc_tick.volume(), base_unit)
             : std::numeric_limits<float>::max();""", """  const float max_base_amount =
      Floor(max_volume_ratio * ohlc_tick.volume(), base_unit);
  return max_base_amount > 0 ? max_base_amount
                             : std::numeric_limits<float>::max();""")], "a limit order over a tick whose volume share is below the base unit",
     "the order is filled without any limit", r"""
int main() {""" + AC + r"""
  ac.set_start_base_balance(10);
  ac.set_base_unit(1);
  ac.set_max_volume_ratio(0.5);
  Account a;
  a.InitAccount(ac);
  CHECK_THAT(!a.ExecuteOrder(ac, BaseOrder(Order::LIMIT, Order::SELL, 5, 10), Flat(60, 10, 1)));
  CHECK_THAT(a.base_balance == 10);
  DEMO_RETURN();
}""")

seed("a09-smallest-sale", "A09", [(A, """  if (total_quote_amount < quote_unit) {""", """  if (total_quote_amount <= quote_unit) {""")],
     "a sale that yields exactly one quote unit after the fee", "the sale is refused although it can be filled", r"""
int main() {""" + AC + r"""
  ac.set_start_base_balance(10);
  ac.set_base_unit(1);
  ac.set_quote_unit(1);
  Account a;
  a.InitAccount(ac);
  CHECK_THAT(a.ExecuteOrder(ac, BaseOrder(Order::MARKET, Order::SELL, 1), Flat(60, 1, 5)));
  CHECK_THAT(a.quote_balance == 1);
  DEMO_RETURN();
}""")

seed("a10-sell-one-unit", "A10", [(A, """  if (base_amount < base_unit) {
    return false;
  }
  // Note: When we sell""", """  if (base_amount < base_unit) {
    // Sell at least the smallest unit.
    return SellBase(fee_config, base_unit, price);
  }
  // Note: When we sell""")],
     "a sale by a quote amount of less than one base unit", "the sale yields more than the quote amount asked for", r"""
int main() {""" + AC + r"""
  ac.set_start_base_balance(10);
  ac.set_base_unit(1);
  Account a;
  a.InitAccount(ac);
  a.ExecuteOrder(ac, QuoteOrder(Order::MARKET, Order::SELL, 5), Flat(60, 10, 5));
  CHECK_THAT(a.quote_balance <= 5);
  DEMO_RETURN();
}""")

seed("a12-fee-carried-over", "A12", [(A, "  total_fee = 0;\n", "")], "one account set up a second time", "the fees of the first use are counted again", r"""
int main() {""" + AC + r"""
  ac.set_start_base_balance(10);
  ac.mutable_market_order_fee_config()->set_fixed_fee(1);
  Account a;
  a.InitAccount(ac);
  a.ExecuteOrder(ac, BaseOrder(Order::MARKET, Order::SELL, 1), Flat(60, 10, 5));
  a.InitAccount(ac);
  CHECK_THAT(a.total_fee == 0);
  DEMO_RETURN();
}""")

seed("e01-gap-peek", "E01", [(E, "    trader.Update(ohlc_tick, side_input_signals, account.base_balance,", """    const auto next_it = ohlc_tick_it + 1;
    const bool before_gap =
        next_it != ohlc_history_end && next_it->volume() == 0;
    trader.Update(before_gap ? *next_it : ohlc_tick, side_input_signals,
                  account.base_balance,""")], "a tick with volume before a gap", "the trader is shown the tick after the current one", r"""
int main() {""" + AC + r"""
  ac.set_start_quote_balance(1000);
  OhlcHistory h{Flat(60, 10, 1), Flat(120, 11, 0), Flat(180, 12, 1)};
  std::vector<int64_t> seen;
  ScriptTrader t([&](int n, const OhlcTick& k, const std::vector<float>&, float, float, std::vector<Order>&) { seen.push_back(k.timestamp_sec()); });
  ExecuteTrader(ac, h.begin(), h.end(), nullptr, true, t, nullptr);
  CHECK_THAT((seen == std::vector<int64_t>{60, 180}));
  DEMO_RETURN();
}""")

seed("e03-idle-gap-update", "E03", [(E, "    if (ohlc_tick.volume() == 0) {\n", "    if (ohlc_tick.volume() == 0 && !orders.empty()) {\n")],
     "a zero-volume tick while no order is pending", "the trader is updated on a tick without volume", r"""
int main() {""" + AC + r"""
  ac.set_start_quote_balance(1000);
  OhlcHistory h{Flat(60, 10, 1), Flat(120, 11, 0), Flat(180, 12, 1)};
  int updates = 0;
  ScriptTrader t([&](int n, const OhlcTick& k, const std::vector<float>&, float, float, std::vector<Order>&) { ++updates; });
  ExecuteTrader(ac, h.begin(), h.end(), nullptr, true, t, nullptr);
  CHECK_THAT(updates == 2);
  DEMO_RETURN();
}""")

seed("e04-balance-of-first", "E04", [(E, "    pending_orders.clear();\n    for", "    pending_orders.clear();\n    float base_balance = account.base_balance;\n    for"),
                                     (E, "        ++total_executed_orders;\n", "        ++total_executed_orders;\n        if (pending_orders.empty()) {\n          base_balance = account.base_balance;\n        }\n"),
                                     (E, "side_input_signals, account.base_balance,\n                  account.quote_balance, orders);", "side_input_signals, base_balance,\n                  account.quote_balance, orders);")],
     "an executed order after one that was not executed on the same tick", "the trader is told the base balance from before the later order", r"""
int main() {""" + AC + r"""
  ac.set_start_quote_balance(1000);
  OhlcHistory h{Flat(60, 10, 1), Flat(120, 10, 1), Flat(180, 12, 1)};
  std::vector<float> base;
  ScriptTrader t([&](int n, const OhlcTick& k, const std::vector<float>&, float b, float, std::vector<Order>& o) {
    base.push_back(b);
    if (n == 0) {
      o.push_back(BaseOrder(Order::LIMIT, Order::BUY, 1, 5));
      o.push_back(BaseOrder(Order::MARKET, Order::BUY, 1));
    }
  });
  ExecuteTrader(ac, h.begin(), h.end(), nullptr, true, t, nullptr);
  CHECK_THAT(base.size() == 3 && base[1] == 1);
  DEMO_RETURN();
}""")

seed("e06-count-ticks", "E06", [(E, "        ++total_executed_orders;\n", "        if (&order == &orders.front() || pending_orders.size() > 0) {\n          ++total_executed_orders;\n        }\n")],
     "two orders executed on one tick", "only one of them is counted", r"""
int main() {""" + AC + r"""
  ac.set_start_quote_balance(1000);
  OhlcHistory h{Flat(60, 10, 1), Flat(120, 10, 1), Flat(180, 12, 1)};
  ScriptTrader t([&](int n, const OhlcTick& k, const std::vector<float>&, float b, float, std::vector<Order>& o) {
    if (n == 0) {
      o.push_back(BaseOrder(Order::MARKET, Order::BUY, 1));
      o.push_back(BaseOrder(Order::MARKET, Order::BUY, 1));
    }
  });
  CHECK_THAT(ExecuteTrader(ac, h.begin(), h.end(), nullptr, true, t, nullptr).total_executed_orders() == 2);
  DEMO_RETURN();
}""")

seed("e08-month-drift", "E08", [(E, """    const int64_t start_eval_timestamp_sec = AddMonthsToTimestampSec(
        eval_config.start_timestamp_sec(), month_offset);
""", """    const int64_t start_eval_timestamp_sec =
        month_offset == 0
            ? eval_config.start_timestamp_sec()
            : AddMonthsToTimestampSec(next_start_timestamp_sec, 1);
    next_start_timestamp_sec = start_eval_timestamp_sec;
"""), (E, "  for (int month_offset = 0;; ++month_offset) {", "  int64_t next_start_timestamp_sec = 0;\n  for (int month_offset = 0;; ++month_offset) {")],
     "a start on the 29th to 31st of a month followed by a shorter month", "the later periods start on another day of the month", r"""
int main() {""" + AC + r"""
  ac.set_start_quote_balance(1000);
  OhlcHistory h;
  int64_t start = 1580428800;  // 2020-01-31
  for (int d = 0; d < 200; ++d) h.push_back(Flat(start + d * 86400, 10, 100));
  EvaluationConfig ec;
  ec.set_start_timestamp_sec(start);
  ec.set_end_timestamp_sec(start + 180 * 86400);
  ec.set_evaluation_period_months(1);
  ScriptEmitter em("x", [](int n, const OhlcTick&, const std::vector<float>&, float, float, std::vector<Order>& o) {});
  auto r = EvaluateTrader(ac, ec, h, nullptr, em, nullptr);
  CHECK_THAT(r.period_size() >= 3);
  CHECK_THAT(r.period(2).start_timestamp_sec() == 1585612800);  // 2020-03-31
  DEMO_RETURN();
}""")

seed("e10-zero-gain-skipped", "E10", [(E, "  double mul = 1;\n  for (const auto& element : container) {\n    mul *= selector(element);\n  }\n", "  double mul = 1;\n  for (const auto& element : container) {\n    const float factor = selector(element);\n    if (factor > 0) {\n      mul *= factor;\n    }\n  }\n")],
     "a period in which the trader loses everything", "the score leaves the lost period out", r"""
int main() {""" + AC + r"""
  ac.set_start_quote_balance(0);
  ac.set_start_base_balance(1);
  ac.mutable_market_order_fee_config()->set_fixed_fee(0);
  // An order of base value 10 sold at a fee that leaves nothing but one unit.
  OhlcHistory h;
  int64_t start = 1577836800;
  for (int d = 0; d < 62; ++d) h.push_back(Flat(start + d * 86400, 10, 100));
  ac.mutable_market_order_fee_config()->set_relative_fee(1);
  EvaluationConfig ec;
  ec.set_start_timestamp_sec(start);
  ec.set_end_timestamp_sec(start + 60 * 86400);
  ec.set_evaluation_period_months(1);
  int run = 0;
  struct Em : TraderEmitter {
    int* run;
    std::string GetName() const override { return "x"; }
    std::unique_ptr<Trader> NewTrader() const override {
      int k = (*run)++;
      return std::unique_ptr<Trader>(new ScriptTrader([k](int n, const OhlcTick&, const std::vector<float>&, float b, float, std::vector<Order>& o) {
        if (k == 1 && n == 0) o.push_back(BaseOrder(Order::MARKET, Order::SELL, 1));
      }));
    }
  } em;
  em.run = &run;
  auto r = EvaluateTrader(ac, ec, h, nullptr, em, nullptr);
  CHECK_THAT(r.period_size() == 2);
  CHECK_THAT(r.period(1).final_gain() == 0);
  CHECK_THAT(r.score() == 0);
  DEMO_RETURN();
}""")

seed("e14-age-capped", "E14", [(E, """        side_input_signals.push_back(ohlc_tick.timestamp_sec() -
                                     side_input_timestamp_sec);""", """        side_input_signals.push_back(
            std::min<int64_t>(ohlc_tick.timestamp_sec() - side_input_timestamp_sec,
                              kSecondsPerWeek));""")],
     "side signals more than a week old", "the age shown to the trader stops growing after a week", r"""
int main() {""" + AC + r"""
  ac.set_start_quote_balance(1000);
  OhlcHistory h{Flat(60, 10, 1), Flat(700000, 11, 1)};
  SideHistory sh(1);
  sh[0].set_timestamp_sec(30);
  sh[0].add_signal(7);
  SideInput side(sh);
  float age = 0;
  ScriptTrader t([&](int n, const OhlcTick& k, const std::vector<float>& s, float b, float, std::vector<Order>& o) { age = s.back(); });
  ExecuteTrader(ac, h.begin(), h.end(), &side, true, t, nullptr);
  CHECK_THAT(age == 699970);
  DEMO_RETURN();
}""")

seed("s01-search-window", "S01", [(S, """             timestamp_sec_history_.begin() + prev_side_input_index + 2,
             timestamp_sec_history_.end(), timestamp_sec) -""", """             timestamp_sec_history_.begin() + prev_side_input_index + 2,
             timestamp_sec_history_.size() - prev_side_input_index > 1024
                 ? timestamp_sec_history_.begin() + prev_side_input_index + 1024
                 : timestamp_sec_history_.end(),
             timestamp_sec) -""")], "a step of more than a thousand side records between two ticks", "an older record than the latest one is used", r"""
int main() {
  SideHistory sh(3000);
  for (int i = 0; i < 3000; ++i) {
    sh[i].set_timestamp_sec(10 * (i + 1));
    sh[i].add_signal(i);
  }
  SideInput side(sh);
  CHECK_THAT(side.GetSideInputIndex(25000, 5) == side.GetSideInputIndex(25000));
  DEMO_RETURN();
}""")

seed("s02-clears-output", "S02", [(S, "  const int offset = side_input_index * num_signals_;\n", "  const int offset = side_input_index * num_signals_;\n  if (side_input_signals.size() >= static_cast<size_t>(num_signals_)) {\n    side_input_signals.clear();\n  }\n")],
     "an output vector that already holds as many values", "what the caller put into the vector is removed", r"""
int main() {
  SideHistory sh(2);
  for (int i = 0; i < 2; ++i) {
    sh[i].set_timestamp_sec(10 * (i + 1));
    sh[i].add_signal(i);
  }
  SideInput side(sh);
  std::vector<float> out;
  side.GetSideInputSignals(0, out);
  side.GetSideInputSignals(1, out);
  CHECK_THAT((out == std::vector<float>{0, 1}));
  DEMO_RETURN();
}""")

seed("h01-inverted-interval", "H01", [(B, """          ? std::lower_bound(record_begin, history.end(), end_timestamp_sec,
                             record_compare)""", """          ? std::lower_bound(history.begin(), history.end(), end_timestamp_sec,
                             record_compare)""")], "an interval whose end lies before its start", "the end of the subset lies before its begin instead of the subset being empty", r"""
int main() {
  OhlcHistory h{Flat(60, 10, 1), Flat(120, 11, 1), Flat(180, 12, 1), Flat(240, 12, 1)};
  auto s = HistorySubset(h, 200, 100);
  CHECK_THAT(std::distance(s.first, s.second) == 0);
  DEMO_RETURN();
}""")

seed("h02-merge-low", "H02", [(H, """      ohlc_tick->set_high(std::max(ohlc_tick->high(), it->price()));
      ohlc_tick->set_low(std::min(ohlc_tick->low(), it->price()));
      ohlc_tick->set_close(it->price());""", """      if (it->price() > ohlc_tick->high()) {
        ohlc_tick->set_high(it->price());
      } else if (it->price() < std::min(ohlc_tick->open(), ohlc_tick->close())) {
        ohlc_tick->set_low(it->price());
      }
      ohlc_tick->set_close(it->price());""")], "prices in one period that fall, rise again and fall less far", "the low of the period is not the lowest price", r"""
int main() {
  PriceHistory p{Price(60, 10, 1), Price(61, 3, 1), Price(62, 7, 1), Price(63, 5, 1)};
  CHECK_THAT(Resample(p.begin(), p.end(), 60)[0].low() == 3);
  DEMO_RETURN();
}""")

seed("h03-long-gap", "H03", [(H, """    while (!resampled_ohlc_history.empty() &&
           resampled_ohlc_history.back().timestamp_sec() + sampling_rate_sec <
               downsampled_timestamp_sec) {""", """    while (!resampled_ohlc_history.empty() &&
           resampled_ohlc_history.back().timestamp_sec() + sampling_rate_sec <
               downsampled_timestamp_sec &&
           downsampled_timestamp_sec -
                   resampled_ohlc_history.back().timestamp_sec() <
               10000 * static_cast<int64_t>(sampling_rate_sec)) {""")], "a gap of more than ten thousand periods", "the gap is not filled", r"""
int main() {
  PriceHistory p{Price(60, 10, 1), Price(60 + 60 * 20000, 6, 1)};
  auto h = Resample(p.begin(), p.end(), 60);
  CHECK_THAT(h.size() == 20001);
  DEMO_RETURN();
}""")

seed("h04-quiet-start", "H04", [(H, """    if (price_history_clean.empty()) {
      price_history_clean.push_back(price_record);
      continue;
    }
""", """    if (price_history_clean.empty()) {
      if (price_record.volume() > 0) {
        price_history_clean.push_back(price_record);
      }
      continue;
    }
""")], "a history that starts with records without volume", "the records are neither kept nor listed as outliers", r"""
int main() {
  PriceHistory p{Price(60, 10, 0), Price(120, 10, 1), Price(180, 10, 1)};
  std::vector<size_t> out;
  auto h = RemoveOutliers(p.begin(), p.end(), 0.05, &out);
  CHECK_THAT(h.size() + out.size() == 3);
  DEMO_RETURN();
}""")

seed("h05-short-lead", "H05", [(H, "  if (start_timestamp_sec > 0) {\n    gap_queue.push", "  if (start_timestamp_sec > 0 &&\n      begin->timestamp_sec() - start_timestamp_sec >= kSecondsPerMinute) {\n    gap_queue.push")],
     "a gap of less than a minute before the first record, and fewer gaps than asked for", "the first gap is not reported", r"""
int main() {
  PriceHistory p{Price(90, 10, 1), Price(100, 10, 1)};
  auto g = GetPriceHistoryGaps(p.begin(), p.end(), 60, 0, 5);
  CHECK_THAT(g.size() == 2 && g[0].first == 60 && g[0].second == 90);
  DEMO_RETURN();
}""")

seed("h06-last-n-doubled", "H06", [(H, "outlier_indices.size() <= last_n)", "outlier_indices.size() < 2 * last_n)")],
     "more outliers than asked for, but fewer than twice as many", "all outliers are listed instead of the last n", r"""
int main() {
  auto m = GetOutlierIndicesWithContext({10, 30, 50}, 100, 1, 1, 2);
  CHECK_THAT(m.size() == 6 && m.count(10) == 0);
  DEMO_RETURN();
}""")

seed("h07-zero-price", "H07", [(H, "    if (price_record.price() <= 0 || price_record.volume() < 0) {", "    if (price_record.price() < 0 || price_record.volume() < 0) {")],
     "a first record with price zero", "the invalid record survives", r"""
int main() {
  PriceHistory p{Price(60, 0, 1), Price(120, 10, 1)};
  auto h = RemoveOutliers(p.begin(), p.end(), 0.05, nullptr);
  for (auto& r : h) CHECK_THAT(r.price() > 0);
  DEMO_RETURN();
}""")

seed("h08-time-of-removed", "H08", [(H, """        std::max(1.0f, static_cast<float>(price_record.timestamp_sec() -
                                          price_record_prev.timestamp_sec()) /""", """        std::max(1.0f, static_cast<float>(price_record.timestamp_sec() -
                                          (it - 1)->timestamp_sec()) /""")], "a lasting jump after a long stretch of removed records", "the time since the last kept record is measured from a removed one", r"""
int main() {
  // kept 10, a long invalid stretch, then a price within the bounds for the time passed
  PriceHistory p{Price(60, 10, 1)};
  for (int i = 1; i <= 100; ++i) p.push_back(Price(60 + 60 * i, -1, 1));
  p.push_back(Price(60 + 60 * 101, 50, 1));
  auto h = RemoveOutliers(p.begin(), p.end(), 0.05, nullptr);
  CHECK_THAT(h.size() == 2);
  DEMO_RETURN();
}""")

seed("h09-first-record", "H09", [(H, """    if (price_history[i].timestamp_sec() <
        price_history[i - 1].timestamp_sec()) {""", """    if (price_history[i].timestamp_sec() <
        price_history[i - (i + 1 == price_history.size() ? 2 : 1) % i]
            .timestamp_sec()) {""")], "a history whose last record is earlier than the one before, but not than the one before that", "the disorder is not found", r"""
namespace trader { bool CheckPriceHistoryTimestamps(const PriceHistory& price_history); }
int main() {
  PriceHistory p{Price(60, 10, 1), Price(120, 10, 1), Price(240, 10, 1), Price(180, 10, 1)};
  CHECK_THAT(!CheckPriceHistoryTimestamps(p));
  DEMO_RETURN();
}""")
