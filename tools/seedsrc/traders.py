S = "traders/stop_trader.cc"
R = "traders/rebalancing_trader.cc"
T = "traders/trader_factory.cc"
SEEDS = []
SRC = ["traders/stop_trader.cc", "traders/rebalancing_trader.cc", "traders/trader_factory.cc", "traders/trader_config.pb.cc"]
INC = """
#include "traders/rebalancing_trader.h"
#include "traders/stop_trader.h"
#include "traders/trader_factory.h"
"""


def seed(id, prop, edits, needs, breaks, demo, **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=INC + demo, srcs=SRC, **kw))


seed("t01-incomplete-order", "T01", [(R, """    order.set_side(Order_Side_BUY);
    order.set_base_amount(market_buy_base_amount);
""", """    order.set_side(Order_Side_BUY);
    if (market_buy_base_amount * price > quote_balance) {
      return;
    }
    order.set_base_amount(market_buy_base_amount);
""")], "rounding, or a target share above one, so that the purchase exceeds the quote balance", "an order without an amount is emitted and the state is not updated", r"""
int main() {
  RebalancingTraderConfig c;
  c.set_alpha(1.2);
  c.set_epsilon(0.01);
  RebalancingTrader t(c);
  std::vector<Order> o;
  t.Update(Flat(60, 10, 1), {}, 1, 100, o);
  for (const Order& x : o) CHECK_THAT(x.has_base_amount() || x.has_quote_amount());
  DEMO_RETURN();
}""")

seed("t02-dust", "T02", [(S, """  orders.emplace_back();
  Order& order = orders.back();
  order.set_type(Order_Type_STOP);
""", """  if (mode_ == Mode::CASH && last_quote_balance_ < price / 100000) {
    return;  // Nothing to spend.
  }
  orders.emplace_back();
  Order& order = orders.back();
  order.set_type(Order_Type_STOP);
""")], "a quote balance that is tiny compared with the price", "no stop order is emitted", r"""
int main() {
  StopTraderConfig c;
  c.set_stop_order_margin(0.1);
  c.set_stop_order_move_margin(0.1);
  c.set_stop_order_increase_per_day(0.1);
  c.set_stop_order_decrease_per_day(0.1);
  StopTrader t(c);
  std::vector<Order> o;
  t.Update(Flat(60, 1e6, 1), {}, 0, 5, o);
  CHECK_THAT(o.size() == 1);
  DEMO_RETURN();
}""")

seed("t03-clock-on-move", "T03", [(S, """  last_base_balance_ = base_balance;
  last_quote_balance_ = quote_balance;
  last_timestamp_sec_ = timestamp_sec;
  last_close_ = price;
  mode_ = mode;
""", """  last_base_balance_ = base_balance;
  last_quote_balance_ = quote_balance;
  if (timestamp_sec % 60 == 0 || last_timestamp_sec_ == 0 || mode != mode_) {
    last_timestamp_sec_ = timestamp_sec;
  }
  last_close_ = price;
  mode_ = mode;
""")], "ticks at times that are not whole minutes", "the time since an earlier tick than the last one is used for the next step of the stop price", r"""
int main() {
  StopTraderConfig c;
  c.set_stop_order_margin(0.5);
  c.set_stop_order_move_margin(0.1);
  c.set_stop_order_increase_per_day(1);
  c.set_stop_order_decrease_per_day(0.1);
  StopTrader t(c);
  double stop = 50;
  for (int i = 0; i < 40; ++i) {
    std::vector<Order> o;
    t.Update(Flat(6000000 + 30 * i, 100, 1), {}, 1, 0, o);
    if (i > 0) stop *= std::exp(std::log(2.0) * 30 / 86400);
    CHECK_THAT(o.size() == 1 && std::fabs(o[0].price() - stop) < 1e-3);
  }
  DEMO_RETURN();
}""")

seed("t04-band-edge", "T04", [(R, "    if (buy_price < price && buy_price > price / 100.0f) {\n", "    if (buy_price < price && buy_price > price / 100.0f &&\n        (orders.empty() || orders.back().price() < 2 * price)) {\n")],
     "a band so wide that the sell order lies at more than twice the price", "the buy order is left out", r"""
int main() {
  RebalancingTraderConfig c;
  c.set_alpha(0.5);
  c.set_epsilon(0.5);
  RebalancingTrader t(c);
  std::vector<Order> o;
  t.Update(Flat(60, 10, 1), {}, 10, 100, o);
  CHECK_THAT(o.size() == 2);
  DEMO_RETURN();
}""")

seed("t05-name-order", "T05", [(R, """                         trader_config_.alpha(), trader_config_.epsilon());
""", """                         trader_config_.alpha(),
                         std::min(trader_config_.epsilon(), 0.5f));
""")], "an epsilon above one half", "the name of the trader does not show its epsilon", r"""
int main() {
  RebalancingTraderConfig c;
  c.set_alpha(0.5);
  c.set_epsilon(0.75);
  CHECK_THAT(RebalancingTraderEmitter(c).GetName() == "rebalancing-trader[0.500|0.750]");
  DEMO_RETURN();
}""")

seed("t06-grid-dedup", "T06", [(S, """          trader_config.set_stop_order_decrease_per_day(
              stop_order_decrease_per_day);
          batch.emplace_back""", """          trader_config.set_stop_order_decrease_per_day(
              stop_order_decrease_per_day);
          // Skip names that are already there.
          if (!batch.empty() && batch.back()->GetName() ==
                                    StopTraderEmitter(trader_config).GetName()) {
            continue;
          }
          batch.emplace_back""")], "values that agree in their first three decimals", "a combination is missing", r"""
int main() {
  CHECK_THAT(StopTraderEmitter::GetBatchOfTraders({0.1f}, {0.1f}, {0.01f}, {0.0001f, 0.0002f}).size() == 2);
  DEMO_RETURN();
}""")

seed("t07-state-before", "T07", [(R, """  } else if (base_balance > 1.0e-6f && quote_balance > 1.0e-6f) {
    if (alpha""", """  } else if (base_balance <= 1.0e-6f || quote_balance <= 1.0e-6f) {
    return;
  } else {
    if (alpha""")], "a trader that holds only one currency within its band", "the state line shows an earlier update", r"""
int main() {
  RebalancingTraderConfig c;
  c.set_alpha(1);
  c.set_epsilon(0.1);
  RebalancingTrader t(c);
  std::vector<Order> o;
  t.Update(Flat(60, 10, 1), {}, 2, 0, o);
  CHECK_THAT(t.GetInternalState() == "60,2.000,0.000,10.000");
  DEMO_RETURN();
}""")
