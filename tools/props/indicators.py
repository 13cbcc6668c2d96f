from . import p

LF = ["indicators/last_n_ohlc_ticks.cc", "indicators/last_n_ohlc_ticks.h"]
UF = ["indicators/util.cc", "indicators/util.h"]
TEST = "The unit tests compare a few dozen hand-computed values along one fixed list of ticks. "


def ind(name):
    return ["indicators/%s.cc" % name, "indicators/%s.h" % name]


p("I01", "A tick window holds the last N periods, merged and backfilled",
  "For ticks in order of time, a tick window holds one tick for each of the last at most N periods, in order, at multiples of the period: the first open, highest high, lowest low, "
  "last close and total volume of the period's ticks. A period without ticks has the previous close as all four prices and no volume.",
  ["inputs", "histories"], "every sequence of ticks in order of time, every N and period of at least one",
  TEST + "Gaps, drops and merges interact for every N and gap length.", LF, [("LastNOhlcTicks::Update", "indicators/last_n_ohlc_ticks.cc")],
  [("the deque of ticks", "between updates")], ["GetLastNOhlcTicks"])
p("I02", "A tick window reports every change once, with the right ticks",
  "Each change of a tick window calls exactly one registered callback: a merge with the newest tick before and after it, an addition with the added tick, and if that drops the oldest "
  "tick, the dropped and the added one. The window already has its new content when the callback runs.",
  ["inputs", "histories"], "every sequence of ticks in order of time, every N and period",
  TEST + "Every indicator keeps running totals that are wrong for good after one missed or doubled report.", LF,
  [("NewOhlcTickAdded, LastOhlcTickUpdated, Register...Callback", "indicators/last_n_ohlc_ticks.cc")], [("callbacks", "registered functions")], ["the registered callbacks"])
p("I03", "Simple and exponential moving averages follow their definitions",
  "The simple moving average is the mean of the closes in the window, 0 if there is none. The exponential moving average is the first close, and from then on weight times the close "
  "plus the rest times the average before it, with weight smoothing / (1 + length). Revising the newest tick gives the same average as having added the revised tick.",
  ["inputs", "histories"], "all histories of additions and revisions, all lengths and periods, in exact arithmetic",
  TEST + "The values are updated step by step, so an error depends on the order of additions and revisions.", ind("simple_moving_average") + ind("exponential_moving_average") + UF,
  [("the registered callbacks", "indicators/simple_moving_average.cc, indicators/exponential_moving_average.cc"), ("ExponentialMovingAverageHelper", "indicators/util.cc")],
  [("sum or average", "carried between ticks")], ["GetSimpleMovingAverage", "GetExponentialMovingAverage", "GetNumOhlcTicks"])
p("I04", "Sliding mean and variance are those of the values in the window",
  "The mean and variance are those of the last min(count, size) values, of all values if the size is 0, with the newest value as last revised. The variance is never negative and the "
  "standard deviation is its root.",
  ["inputs", "histories"], "all values; sizes 0 to 4 along seven values with revisions, and one step from any later state for every size, in exact arithmetic",
  TEST + "The sums are updated step by step.", UF, [("SlidingWindowMeanAndVariance", "indicators/util.cc")], [("sums, current value, window", "carried between values")],
  ["GetMean", "GetVariance", "GetStandardDeviation", "GetWindowSize", "GetNumValues"])
p("I05", "Sliding minimum and maximum are those of the values in the window",
  "The sliding minimum is the smallest of the last min(count, size) values, with the newest value as last revised, and the sliding maximum the largest. A value is given up only once it "
  "has left the window or a newer one that cannot be revised any more is at least as extreme.",
  ["inputs", "histories"], "all histories of additions and revisions, all sizes",
  TEST + "Which values are kept depends on their order and on revisions.", UF, [("SlidingWindowMinimum, SlidingWindowMaximum", "indicators/util.cc")],
  [("queue of candidate values", "carried between values")], ["GetSlidingWindowMinimum", "GetSlidingWindowMaximum", "GetWindowSize"])
p("I06", "The relative strength index follows its definition",
  "Upward and downward change are taken from the previous close, in the first period from its open, and averaged with weight 1 / min(count, N); revisions of the newest tick leave no "
  "trace. The index is 100 - 100 / (1 + U / D), 100 if nothing fell and 50 if nothing changed.",
  ["inputs", "histories"], "all histories of additions and revisions, all N, in exact arithmetic",
  TEST + "The weight changes until N ticks are seen.", ind("relative_strength_index") + UF, [("RelativeStrengthIndex", "indicators/relative_strength_index.cc")],
  [("averages and count", "carried between ticks")], ["GetRelativeStrengthIndex", "GetUpwardChangeModifiedMovingAverage", "GetDownwardChangeModifiedMovingAverage", "GetNumOhlcTicks"])
p("I07", "The stochastic oscillator follows its definition",
  "Low and high are the lowest low and highest high over N periods, %K is 100 (close - low) / (high - low), or 50 if they coincide. %D-fast is the mean of the last three %K and %D-slow "
  "that of the last three %D-fast; a revision of the newest tick revises all of them.",
  ["inputs", "histories"], "all prices; the first two periods with revisions for the prices, all histories for what is averaged",
  TEST, ind("stochastic_oscillator") + UF, [("StochasticOscillator", "indicators/stochastic_oscillator.cc")], [("%K, extremes and means", "carried between ticks")],
  ["GetLow", "GetHigh", "GetK", "GetFastD", "GetSlowD", "GetNumOhlcTicks"])
p("I08", "MACD series, signal and divergence follow their definitions",
  "The series is the fast less the slow exponential average of the closes, the signal the exponential average of the series, and the divergence the series less the signal, with "
  "weights 2 / (1 + length). Revisions of the newest tick leave no trace.",
  ["inputs", "histories"], "all histories of additions and revisions, all lengths, in exact arithmetic",
  TEST, ind("moving_average_convergence_divergence") + UF, [("MovingAverageConvergenceDivergence", "indicators/moving_average_convergence_divergence.cc")],
  [("three averages", "carried between ticks")],
  ["GetFastExponentialMovingAverage", "GetSlowExponentialMovingAverage", "GetMACDSeries", "GetMACDSignal", "GetDivergence", "GetNumOhlcTicks"])
p("I09", "Volatility is the deviation of the portfolio's returns per period",
  "Each period contributes the logarithmic return of the portfolio value (base balance times close plus quote balance, as of the latest update) since the end of the previous period, the "
  "first one since its open. The volatility is the standard deviation of the returns in the sliding window.",
  ["inputs", "histories"], "all ticks and balances; every kind of step up to the fourth period, after which the state has the same form",
  TEST + "The returns feed the reported base and trader volatility.", ind("volatility") + UF, [("Volatility", "indicators/volatility.cc")],
  [("last two portfolio values and latest balances", "carried between ticks")], ["GetVolatility", "GetNumOhlcTicks"])
