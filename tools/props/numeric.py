from . import na

na("N01", "Incrementally kept averages stay close to the exact values",
   "The sums that the indicators update incrementally (moving averages, variance, volatility) stay within a relative error that does not grow with the length of the history.",
   ["inputs", "histories"], "histories of any length", "Rounding errors add up only over long histories.",
   ["indicators/util.cc", "indicators/simple_moving_average.cc", "indicators/volatility.cc"], [("SlidingWindowMean, SlidingWindowVariance", "indicators/util.cc")],
   "the error of a running sum after n additions and removals depends on the run-time values and on n; no static bound independent of them exists (the formulas themselves are decided over the reals by I04, I06, I09)")
na("N02", "A sale or purchase never exceeds its balance by more than one rounding step",
   "In single-precision arithmetic the executed amounts exceed the available balance by at most one unit step, however large balances and prices are.",
   ["inputs"], "every balance, price, fee and unit", "The tests use small round numbers.",
   ["base/account.cc"], [("ExecuteOrder", "base/account.cc")],
   "a bound on float rounding needs ranges for balances, prices and units, which the configuration leaves open; over the reals the budgets are decided by the A properties")
na("N03", "An update takes amortised constant time",
   "The work per tick does not grow with the length of the history, the window or the number of earlier orders.",
   ["inputs", "histories"], "histories and windows of any length", "Timing in tests is noise.",
   ["indicators/util.cc", "eval/eval.cc"], [("SlidingWindowMinimum::AddNewValue", "indicators/util.cc")],
   "running time is a run-time quantity; amortised bounds need a potential argument over the container states, which the analysis does not build (G05 decides that every loop ends)")
