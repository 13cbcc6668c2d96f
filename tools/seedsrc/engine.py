E = "eval/eval.cc"
A = "base/account.cc"
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, **kw))


seed("e02-drop-gap", "E02", [(E, "  std::vector<Order> orders;\n  constexpr", "  bool had_gap = false;\n  std::vector<Order> orders;\n  constexpr"),
                             (E, "    if (ohlc_tick.volume() == 0) {\n", "    if (ohlc_tick.volume() == 0) {\n      if (had_gap) {\n        orders.clear();\n        continue;\n      }\n      had_gap = true;\n")],
     "a second zero-volume tick in a run, while an order is still pending",
     "orders pending over a second gap tick are forgotten instead of staying active until the next tick with volume", r"""
int main() {
  AccountConfig ac;
  ac.set_start_quote_balance(1000);
  ac.set_market_liquidity(1);
  OhlcHistory h{Flat(60, 10, 1), Flat(120, 10, 0), Flat(180, 10, 1), Flat(240, 10, 0), Flat(300, 5, 1)};
  ScriptTrader t([](int n, const OhlcTick&, const std::vector<float>&, float, float, std::vector<Order>& o) {
    if (n == 1) o.push_back(BaseOrder(Order::LIMIT, Order::BUY, 1, 6));
  });
  auto r = ExecuteTrader(ac, h.begin(), h.end(), nullptr, true, t, nullptr);
  CHECK_THAT(r.total_executed_orders() == 1);
  CHECK_THAT(Near(r.end_base_balance(), 1));
  DEMO_RETURN();
}""")

seed("e05-fast-skip-flat", "E05", [(E, "    for (const Order& order : orders) {\n", "    for (const Order& order : orders) {\n      if (fast_eval && order.type() == Order::LIMIT &&\n          ohlc_tick.high() == ohlc_tick.low()) {\n        continue;\n      }\n")],
     "fast evaluation, a limit order and a tick whose price does not move",
     "fast evaluation skips limit orders on flat ticks, so it trades differently from a full evaluation", r"""
int main() {
  AccountConfig ac;
  ac.set_start_quote_balance(1000);
  ac.set_market_liquidity(1);
  OhlcHistory h{Flat(60, 10, 1), Flat(120, 8, 1), Flat(180, 10, 1)};
  float end[2];
  for (int fast = 0; fast < 2; ++fast) {
    ScriptTrader t([](int n, const OhlcTick&, const std::vector<float>&, float, float, std::vector<Order>& o) {
      if (n == 0) o.push_back(BaseOrder(Order::LIMIT, Order::BUY, 1, 9));
    });
    end[fast] = ExecuteTrader(ac, h.begin(), h.end(), nullptr, fast != 0, t, nullptr).end_quote_balance();
  }
  CHECK_THAT(end[0] == end[1]);
  CHECK_THAT(Near(end[0], 991));
  DEMO_RETURN();
}""")

seed("e09-shared-trader", "E09", [(E, "  for (int month_offset = 0;; ++month_offset) {", "  std::unique_ptr<Trader> trader;\n  for (int month_offset = 0;; ++month_offset) {"),
                                  (E, "    std::unique_ptr<Trader> trader = trader_emitter.NewTrader();\n", "    if (trader == nullptr) {\n      trader = trader_emitter.NewTrader();\n    }\n")],
     "a stateful trader evaluated over more than one period",
     "one trader object is used for all periods, so a period's result depends on the periods before it", r"""
int main() {
  AccountConfig ac;
  ac.set_start_quote_balance(1000);
  ac.set_market_liquidity(1);
  OhlcHistory h;
  int64_t start = 1577836800;  // 2020-01-01
  for (int d = 0; d < 91; ++d) h.push_back(Flat(start + d * 86400, 10 + d, 100));
  EvaluationConfig ec;
  ec.set_start_timestamp_sec(start);
  ec.set_end_timestamp_sec(start + 91 * 86400);
  ec.set_evaluation_period_months(1);
  ScriptEmitter em("x", [](int n, const OhlcTick&, const std::vector<float>&, float, float, std::vector<Order>& o) {
    if (n == 0) o.push_back(BaseOrder(Order::MARKET, Order::BUY, 1));
  });
  auto r = EvaluateTrader(ac, ec, h, nullptr, em, nullptr);
  CHECK_THAT(r.period_size() == 3);
  for (auto& p : r.period()) CHECK_THAT(p.result().total_executed_orders() == 1);
  DEMO_RETURN();
}""")

seed("e07-volatility-gap", "E07", [(E, "    if (ohlc_tick.volume() == 0) {\n", "    if (ohlc_tick.volume() == 0) {\n      if (!fast_eval) {\n        trader_volatility.Update(ohlc_tick, account.base_balance,\n                                 account.quote_balance);\n      }\n")],
     "zero-volume ticks at a price change between days",
     "the trader's volatility is taken over gap ticks as well, the price volatility is not, so a buy-and-hold trader no longer has the price's volatility", r"""
int main() {
  AccountConfig ac;
  ac.set_start_base_balance(1);
  ac.set_market_liquidity(1);
  OhlcHistory h;
  for (int d = 0; d < 30; ++d) h.push_back(Flat(86400 * (d + 1), d % 3 == 1 ? 20 : 10 + d % 3, d % 3 == 1 ? 0 : 5));
  ScriptTrader t([](int, const OhlcTick&, const std::vector<float>&, float, float, std::vector<Order>&) {});
  auto r = ExecuteTrader(ac, h.begin(), h.end(), nullptr, false, t, nullptr);
  CHECK_THAT(r.base_volatility() > 0);
  CHECK_THAT(Near(r.base_volatility(), r.trader_volatility()));
  DEMO_RETURN();
}""")

seed("e11-emitter-mixup", "E11", [(E, "    const TraderEmitter& trader_emitter = *trader_emitter_ptr;\n", "    const TraderEmitter& trader_emitter =\n        eval_result_futures.size() % 256 == 255\n            ? *trader_emitters[eval_result_futures.size() - 255]\n            : *trader_emitter_ptr;\n")],
     "a batch of at least 256 traders",
     "the 256th result of a batch is that of another emitter", r"""
int main() {
  AccountConfig ac;
  ac.set_start_quote_balance(1000);
  OhlcHistory h{Flat(60, 10, 1), Flat(120, 8, 1)};
  EvaluationConfig ec;
  ec.set_start_timestamp_sec(60);
  ec.set_end_timestamp_sec(180);
  ec.set_fast_eval(true);
  std::vector<std::unique_ptr<TraderEmitter>> ems;
  for (int i = 0; i < 300; ++i)
    ems.emplace_back(new ScriptEmitter("t" + std::to_string(i), [](int, const OhlcTick&, const std::vector<float>&, float, float, std::vector<Order>&) {}));
  auto r = EvaluateBatchOfTraders(ac, ec, h, nullptr, ems);
  CHECK_THAT(r.size() == 300);
  for (int i = 0; i < 300; ++i) CHECK_THAT(r[i].name() == "t" + std::to_string(i));
  DEMO_RETURN();
}""")

seed("a01-fee-not-covered", "A01", [(A, "  if (total_quote_amount > quote_balance) {", "  if (quote_amount > quote_balance) {")],
     "a purchase whose cost fits the balance but whose cost plus fee does not",
     "the quote balance becomes negative", r"""
int main() {
  AccountConfig ac;
  ac.set_start_quote_balance(100);
  ac.set_market_liquidity(1);
  ac.mutable_market_order_fee_config()->set_relative_fee(0.1);
  Account a;
  a.InitAccount(ac);
  bool done = a.ExecuteOrder(ac, BaseOrder(Order::MARKET, Order::BUY, 9.5), Flat(60, 10, 5));
  CHECK_THAT(a.quote_balance >= 0);
  CHECK_THAT(!done);
  DEMO_RETURN();
}""")
