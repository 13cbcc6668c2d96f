L = "indicators/last_n_ohlc_ticks.cc"
U = "indicators/util.cc"
EMA = "indicators/exponential_moving_average.cc"
R = "indicators/relative_strength_index.cc"
K = "indicators/stochastic_oscillator.cc"
M = "indicators/moving_average_convergence_divergence.cc"
O = "indicators/volatility.cc"
SEEDS = []


def seed(id, prop, edits, needs, breaks, demo, srcs=(), **kw):
    SEEDS.append(dict(id=id, property=prop, edits=edits, needs=needs, breaks=breaks, demo=demo, srcs=list(srcs), **kw))


seed("i01-empty-merge", "I01", [(L, "    top_ohlc_tick->set_high(std::max(top_ohlc_tick->high(), ohlc_tick.high()));\n    top_ohlc_tick->set_low(std::min(top_ohlc_tick->low(), ohlc_tick.low()));\n",
      "    if (top_ohlc_tick->volume() > 0) {\n      top_ohlc_tick->set_high(\n          std::max(top_ohlc_tick->high(), ohlc_tick.high()));\n      top_ohlc_tick->set_low(\n          std::min(top_ohlc_tick->low(), ohlc_tick.low()));\n    } else {\n"
      "      // Nothing was traded at the old prices.\n      top_ohlc_tick->set_high(ohlc_tick.high());\n      top_ohlc_tick->set_low(ohlc_tick.low());\n    }\n")],
     "a first tick of a period without volume whose prices lie outside of the next tick's", "the high and low of that tick are lost", r"""
#include "indicators/last_n_ohlc_ticks.h"
int main() {
  LastNOhlcTicks w(3, 100);
  w.Update(Tick(100, 10, 30, 5, 10, 0));
  w.Update(Tick(150, 10, 12, 9, 10, 1));
  CHECK_THAT(w.GetLastNOhlcTicks().size() == 1);
  CHECK_THAT(w.GetLastNOhlcTicks().back().high() == 30);
  CHECK_THAT(w.GetLastNOhlcTicks().back().low() == 5);
  DEMO_RETURN();
}""")

seed("i02-quiet-merge", "I02", [(L, "    LastOhlcTickUpdated(old_ohlc_tick_copy);\n", "    if (top_ohlc_tick->close() != old_ohlc_tick_copy.close() ||\n        top_ohlc_tick->volume() != old_ohlc_tick_copy.volume()) {\n      LastOhlcTickUpdated(old_ohlc_tick_copy);\n    }\n")],
     "a merged tick without volume that extends the range but closes at the old close", "the change of the high and low is not reported", r"""
#include "indicators/last_n_ohlc_ticks.h"
int main() {
  LastNOhlcTicks w(3, 100);
  int n = 0;
  w.RegisterLastTickUpdatedCallback([&](const OhlcTick& a, const OhlcTick& b) {
    ++n;
    CHECK_THAT(a.high() == 10 && b.high() == 12);
  });
  w.Update(Flat(100, 10, 1));
  w.Update(Tick(150, 10, 12, 9, 10, 0));
  CHECK_THAT(n == 1);
  DEMO_RETURN();
}""")

seed("i03-quiet-revision", "I03", [(EMA, "        ema_helper_.UpdateCurrentValue(new_ohlc_tick.close(), weight_);\n", "        if (new_ohlc_tick.volume() > old_ohlc_tick.volume()) {\n          ema_helper_.UpdateCurrentValue(new_ohlc_tick.close(), weight_);\n        }\n")],
     "a revision of the newest tick without volume", "the average keeps the old close", r"""
#include "indicators/exponential_moving_average.h"
int main() {
  ExponentialMovingAverage e(2, 3, 100);  // weight 1/2
  e.Update(Flat(100, 10, 1));
  e.Update(Flat(200, 20, 1));
  CHECK_THAT(Near(e.GetExponentialMovingAverage(), 15));
  e.Update(Flat(250, 30, 0));
  CHECK_THAT(Near(e.GetExponentialMovingAverage(), 20));
  DEMO_RETURN();
}""", ["indicators/exponential_moving_average.cc"])

seed("i04-zero-revision", "I04", [(U, "  assert(num_values_ >= 1);\n  current_value_ = value;\n}\n\nvoid ExponentialMovingAverageHelper", "  assert(num_values_ >= 1);\n  if (value == 0 && window_size_ > 1) {\n    return;  // No information.\n  }\n  current_value_ = value;\n}\n\nvoid ExponentialMovingAverageHelper")],
     "the newest value is revised to zero", "the revision is ignored", r"""
int main() {
  SlidingWindowMeanAndVariance m(3);
  m.AddNewValue(2);
  m.AddNewValue(4);
  m.UpdateCurrentValue(0);
  CHECK_THAT(Near(m.GetMean(), 1));
  CHECK_THAT(Near(m.GetVariance(), 1));
  DEMO_RETURN();
}""")

seed("i05-duplicate", "I05", [(U, "  while (!window_.empty() && window_.back().first >= current_value_) {\n    window_.pop_back();\n  }\n  window_.push_back({current_value_, num_values_});\n",
      "  while (!window_.empty() && window_.back().first > current_value_) {\n    window_.pop_back();\n  }\n  if (window_.empty() || window_.back().first != current_value_) {\n    window_.push_back({current_value_, num_values_});\n  }\n")],
     "equal values in the window of which the older leaves it", "the newer of two equal values is not remembered", r"""
int main() {
  SlidingWindowMinimum m(3);
  for (float v : {1.0f, 1.0f, 5.0f}) m.AddNewValue(v);
  CHECK_THAT(m.GetSlidingWindowMinimum() == 1);
  m.AddNewValue(6);  // window: 1 5 6
  CHECK_THAT(m.GetSlidingWindowMinimum() == 1);
  m.AddNewValue(7);  // window: 5 6 7
  CHECK_THAT(m.GetSlidingWindowMinimum() == 5);
  DEMO_RETURN();
}""")

seed("i06-cheap-asset", "I06", [(R, "  if (downward_change_mma < upward_change_mma * 1.0e-6f) {", "  if (downward_change_mma < 1.0e-6f) {")],
     "an asset with prices of the order of a millionth", "the index is 100 although the price falls as well", r"""
#include "indicators/relative_strength_index.h"
int main() {
  RelativeStrengthIndex r(2, 100);
  r.Update(Flat(100, 10e-6, 1));
  r.Update(Flat(200, 16e-6, 1));
  r.Update(Flat(300, 14.8e-6, 1));
  float u = r.GetUpwardChangeModifiedMovingAverage(), d = r.GetDownwardChangeModifiedMovingAverage();
  CHECK_THAT(d > 0 && u > 0);
  CHECK_THAT(Near(r.GetRelativeStrengthIndex(), 100 - 100 / (1 + u / d)));
  DEMO_RETURN();
}""", ["indicators/relative_strength_index.cc"])

seed("i07-flat-keeps-k", "I07", [(K, "    latest_k_ = 50;\n    return;\n", "    if (num_ohlc_ticks_ == 1) {\n      latest_k_ = 50;\n    }\n    return;\n")],
     "a whole window of periods at one price after a price movement", "%K keeps its last value instead of 50", r"""
#include "indicators/stochastic_oscillator.h"
int main() {
  StochasticOscillator s(2, 100);
  s.Update(Tick(100, 10, 12, 8, 12, 1));
  CHECK_THAT(Near(s.GetK(), 100));
  s.Update(Flat(200, 12, 1));
  s.Update(Flat(300, 12, 1));
  CHECK_THAT(s.GetLow() == 12 && s.GetHigh() == 12);
  CHECK_THAT(s.GetK() == 50);
  DEMO_RETURN();
}""", ["indicators/stochastic_oscillator.cc"])

seed("i08-lengths-sorted", "I08", [(M, "fast_weight_(/*smoothing=*/2.0f / (1.0f + fast_length)),", "fast_weight_(/*smoothing=*/2.0f /\n                   (1.0f + (fast_length < slow_length ? fast_length\n                                                      : slow_length))),")],
     "a fast length above the slow length", "the fast average uses the slow length, so the series is zero", r"""
#include "indicators/moving_average_convergence_divergence.h"
int main() {
  MovingAverageConvergenceDivergence m(7, 3, 2, 100);
  m.Update(Flat(100, 10, 1));
  m.Update(Flat(200, 18, 1));
  CHECK_THAT(Near(m.GetFastExponentialMovingAverage(), 12));
  CHECK_THAT(Near(m.GetSlowExponentialMovingAverage(), 14));
  CHECK_THAT(Near(m.GetMACDSeries(), -2));
  DEMO_RETURN();
}""", ["indicators/moving_average_convergence_divergence.cc"])

seed("i09-value-frozen", "I09", [(O, "        portfolio_value_.back() = latest_base_balance_ * new_ohlc_tick.close() +\n                                  latest_quote_balance_;\n", "        if (new_ohlc_tick.close() != old_ohlc_tick.close()) {\n          portfolio_value_.back() =\n              latest_base_balance_ * new_ohlc_tick.close() +\n              latest_quote_balance_;\n        }\n")],
     "a change of the balances within a period at an unchanged close", "the portfolio value of the period is not brought up to date", r"""
#include "indicators/volatility.h"
int main() {
  Volatility v(10, 100);
  v.Update(Flat(100, 10, 1), 1, 0);
  v.Update(Flat(150, 10, 1), 2, 0);
  v.Update(Flat(200, 80, 1), 2, 0);
  // returns: log 2 (10 to 20) and log 8 (20 to 160)
  CHECK_THAT(Near(v.GetVolatility(), std::log(2.0)));
  DEMO_RETURN();
}""")
