from . import p

F = ["eval/eval.cc", "eval/eval.h", "eval/eval.proto", "base/trader.h"]
ST = [("account, pending orders, last seen tick", "state of one simulated run"), ("period results", "what an evaluation returns")]
O = ["ExecuteTrader", "EvaluateTrader", "EvaluateBatchOfTraders"]
RUNS = "all price histories, side inputs, account configurations and traders"

p("E01", "No look-ahead",
  "While a tick is processed, the trader, the execution of its orders and the side input query depend on the price history only up to and including that tick. "
  "The ticks are processed in order, each once.",
  ["inputs", "histories"], RUNS + "; every tick",
  "A test trader that happens not to profit from the future cannot tell; the guarantee is about every value that flows to a trader.",
  F, [("ExecuteTrader's loop over the ticks", "eval/eval.cc")], ST, O)
p("E02", "Emitted orders live for exactly the next tick with volume",
  "Orders emitted at one update are attempted on the following tick, each once, in emission order and before the next update, and are then forgotten. Only over "
  "ticks without volume do unexecuted orders stay pending, and an order that was executed is never executed again.",
  ["inputs", "histories"], RUNS + "; every sequence of ticks with and without volume",
  "Tests have one history; carry-over needs consecutive gap ticks with orders that execute on some of them.",
  F, [("order list handling in ExecuteTrader", "eval/eval.cc")], ST, O)
p("E03", "Traders are updated exactly on ticks with volume",
  "The trader is updated exactly once on every tick that has volume and never on a tick without volume.",
  ["inputs", "histories"], RUNS, "Tests contain few zero-volume ticks.",
  F, [("the update in ExecuteTrader", "eval/eval.cc")], ST, O)
p("E04", "Traders observe the account after the tick's executions",
  "Each update is given the base and quote balance as they are after all executions of that tick, of the single account that was set up from the configuration.",
  ["inputs", "histories"], RUNS, "Stale balances are visible only to a trader whose decisions depend on them, on ticks with executions.",
  F, [("balances passed to Update in ExecuteTrader", "eval/eval.cc")], ST, O)
p("E05", "Fast mode and logging never change a result",
  "Switching on fast evaluation or attaching a logger changes no trade, no balance and no reported figure other than the volatilities, which fast evaluation omits.",
  ["inputs", "configurations"], RUNS + "; all combinations of fast mode and logger",
  "Tests compare only a few runs with and without a logger; the rule is about every dependence on these options.",
  F, [("ExecuteTrader", "eval/eval.cc")], ST, O)
p("E06", "Executed orders are counted and logged exactly once",
  "The reported number of executed orders is the number of successful executions. With a logger, each tick is logged once before executions, each executed order "
  "exactly once with the balances it led to, and each update's trader state once.",
  ["inputs", "histories"], RUNS, "Tests check the log of one run; a lost or doubled entry needs several orders on a tick of which some fail.",
  F, [("counting and logging in ExecuteTrader", "eval/eval.cc"), ("Logger interface", "logging/logger.h")], ST, O)
p("E07", "The run summary is computed from its run",
  "A run's summary reports the configured start balances, the first and last closing prices, the final account's balances and accumulated fee, values that are quote "
  "plus price times base, and annualised volatilities of the account value and of the price over the same ticks.",
  ["inputs", "histories"], RUNS, "Tests compare a few runs with constants; swapped or stale figures coincide on flat histories.",
  F + ["indicators/volatility.h"], [("summary in ExecuteTrader", "eval/eval.cc")], ST, O)
p("E08", "Evaluation periods tile the configured interval",
  "The k-th period starts k months after the evaluation start and lasts the configured number of months, or spans the whole interval when none is configured; it is "
  "evaluated exactly if it ends within the interval and contains ticks, and is reported with its own bounds. The enumeration always ends.",
  ["inputs", "configurations"], "all evaluation intervals, period lengths and histories, including empty ones and intervals outside of the history",
  "Tests use three or four configurations; off-by-one at the interval end and empty periods are boundary cases.",
  F, [("EvaluateTrader's loop over the periods", "eval/eval.cc"), ("AddMonthsToTimestamp", "util/time.cc")], ST, O)
p("E09", "Every evaluation period starts with a fresh trader",
  "Each period is evaluated with a newly created trader, over its own ticks and with the caller's account configuration, side input, logger and speed option; the "
  "result names the trader and repeats both configurations.",
  ["histories", "configurations"], RUNS + "; any number of periods",
  "State leaking from one period into the next is invisible for stateless test traders and single periods.",
  F, [("trader creation in EvaluateTrader", "eval/eval.cc")], ST, O)
p("E10", "Gains, score and averages follow their definitions",
  "A period's gain is end value over start value and its base gain end price over start price. The score is the geometric mean over the periods of gain over base gain; "
  "the averages are arithmetic means over the periods; all are zero without periods.",
  ["inputs", "histories"], "all period results and numbers of periods",
  "Tests have few periods with similar results, for which different kinds of mean nearly coincide.",
  F, [("averages in EvaluateTrader", "eval/eval.cc")], ST, O)
p("E11", "Batch evaluation equals one evaluation per trader, in order",
  "A batch evaluates every emitter exactly once with the same configurations, history and side input as a single evaluation would, without a shared logger, and its "
  "i-th result is that of the i-th emitter.",
  ["schedules", "inputs"], "all batches and all schedules of the parallel evaluations",
  "A test runs one schedule; sharing between concurrent evaluations shows up only under particular interleavings.",
  F, [("EvaluateBatchOfTraders", "eval/eval.cc")], ST, O)
p("E14", "Side signals are the latest known record plus its age",
  "When the side input has a record at or before the tick, the trader sees the signals of the latest such record followed by its age in seconds. With no such record or no "
  "side input, it sees no signals.",
  ["inputs", "histories"], "all side inputs and price histories",
  "Tests use one side input that is aligned with the history.",
  F + ["base/side_input.h", "base/side_input.cc"], [("side input query in ExecuteTrader", "eval/eval.cc")], ST, O)
